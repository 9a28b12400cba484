#!/usr/bin/env python3-vt
"""Decide one property: build its harnesses against /repo, execute them symbolically, replay what is found."""
import argparse
import glob
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.setrecursionlimit(20000)

NATIVE_TIMEOUT = 10


def _unlimit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def run_native(exe, harness, inputs_file, timeout=NATIVE_TIMEOUT):
    try:
        r = subprocess.run([exe, harness, inputs_file], capture_output=True, text=True, timeout=timeout, errors='replace', preexec_fn=_unlimit)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


class Native:
    def __init__(self, src, tmp, extra):
        import threading
        self.src, self.tmp, self.extra = src, tmp, extra

    def exe(self, variant=''):
        import build
        base = os.path.splitext(os.path.basename(self.src))[0]
        out = os.path.join(self.tmp, base + variant + '.exe')
        if not os.path.exists(out):
            d = tempfile.mkdtemp(dir=self.tmp)
            o = build.build_native(self.src, d, variant, self.extra)
            os.replace(o, out)
        return out


def write_inputs(path, header, inputs):
    with open(path, 'w') as f:
        for h in header:
            f.write('% ' + h.replace('\n', ' ') + '\n')
        for n, b, v in inputs:
            f.write(f"{n} {v}\n")


def worker(job):
    src, harness, bc, tmp, extra, opts, pid, tier, budget = job
    t0 = time.time()
    res = dict(harness=harness, file=os.path.basename(src), error=None, violations=[], unconfirmed=[])
    try:
        import sym
        import solver
        from llvm import Module
        nat = Native(src, tmp, extra)
        m = Module(bc)
        sol = solver.Solver(deadline=t0 + budget)
        eo = dict(opts.get('engine', {}))
        eo['deadline'] = t0 + budget
        ex = sym.Executor(m, sol, eo)
        count = [0]

        def confirm(v):
            count[0] += 1
            fn = os.path.join(tmp, f"ce_{harness}_{count[0]}.txt")
            hdr = [f"property {pid}", f"harness {res['file']} {harness}", f"violation {v['kind']}: {v['msg']}", f"at {v['where']}"]
            write_inputs(fn, hdr, v['inputs'])
            v['file'] = fn
            for variant in ('', 'pattern', 'zero', 'clang'):
                if variant in ('pattern', 'zero') and v['kind'] == 'nonterm':
                    continue
                rc, out, err = run_native(nat.exe(variant), harness, fn)
                if rc == 'timeout':
                    if v['kind'] == 'nonterm':
                        v['native'] = 'does not terminate natively'
                        return True
                    v['native'] = 'native run timed out'
                    return True
                if rc not in (0, 77, 2):
                    lines = [l for l in (out + err).split('\n') if re.search(r'ASSERT-FAILED|ERROR: AddressSanitizer|runtime error|what\(\)|terminate', l)]
                    v['native'] = f"rc={rc} {variant} " + ' | '.join(lines[:2])
                    v['variant'] = variant
                    return True
            v['native'] = f'not reproduced (rc={rc})'
            return False
        ex.on_violation = confirm
        known = opts.get('known', [])
        real_report = ex.report

        def report(st, kind, msg):
            for k in known:
                if k['harness'] == harness and k['kind'] == kind and k['msg'] == msg:
                    res.setdefault('known', [])
                    if k['id'] not in res['known']:
                        v = dict(kind=kind, msg=msg, where=ex.where(st), inputs=ex.inputs_of(st))
                        if confirm(v):
                            res['known'].append(k['id'])
                        else:
                            break
                    return
            real_report(st, kind, msg)
            if ex.violations and ex.violations[-1].get('confirmed') is False:
                ex.unconf.append(ex.violations.pop())
                if len(ex.unconf) > 4:
                    raise sym.Unsupported("too many counterexamples that do not reproduce natively")
        ex.unconf = []
        ex.report = report
        try:
            ex.run('vfh_' + harness)
        except (sym.Unsupported, solver.Unknown, NotImplementedError) as e:
            res['error'] = f"{type(e).__name__}: {e}" + (f" at {getattr(e, 'where', '')}" or '')
            if ex.cur is not None and not hasattr(e, 'where'):
                try:
                    res['error'] += ' at ' + ex.where(ex.cur)
                except Exception:
                    pass
        for v in ex.violations:
            res['violations'].append(dict(kind=v['kind'], msg=v['msg'], where=v['where'], file=v['file'], native=v.get('native', ''), inputs=v['inputs'][:200]))
        for v in ex.unconf:
            res['unconfirmed'].append(dict(kind=v['kind'], msg=v['msg'], where=v['where'], native=v.get('native', ''), file=v.get('file'), inputs=v['inputs'][:50]))
        # cross-check of the encoding: completed paths are replayed natively and must observe the same values
        val = bad = 0
        samples = []
        if not res['violations'] and not res['error']:
            wit = ex.finished[:opts.get('witnesses', 12)]
            for i, st in enumerate(wit):
                inputs = ex.inputs_of(st)
                fn = os.path.join(tmp, f"wit_{harness}_{i}.txt")
                write_inputs(fn, [], inputs)
                rc, out, err = run_native(nat.exe(''), harness, fn)
                got = [int(l.split()[1]) for l in out.split('\n') if l.startswith('OBS ')]
                exp = None
                if st.obs_ok:
                    exp = []
                    for o in ex.obs_of(st):
                        if isinstance(o, int):
                            exp.append(o)
                        else:
                            if any(x.startswith(('undef!', 'uninit!')) for x in sym.vars_of(o)):
                                exp.append(None)
                            else:
                                exp.append(sym.eval_model_bv(o, st.model))
                ok = rc == 0 and 'DONE' in out
                if exp is not None and ok:
                    ok = len(exp) == len(got) and all(a is None or a == b for a, b in zip(exp, got))
                if not ok:
                    bad += 1
                    res.setdefault('mismatch', []).append(dict(rc=rc, out=out[-400:], err=err[-600:], exp=exp and exp[:20], got=got[:20], file=fn, inputs=inputs[:60]))
                else:
                    val += 1
                if i < 2:
                    samples.append({'harness': harness, 'inputs': {n: v for n, b, v in inputs[:40]}, 'observed': got[:12]})
                os.unlink(fn)
        s = ex.stats
        res.update(paths=s['paths'], forks=s['forks'], merges=s['merges'], merged_states=s['merged_states'], steps=s['steps'],
                   asserts=s['asserts'], sites=sorted(s['assert_sites']), branches=s['branches'], accesses=s['accesses'],
                   reached=ex.reached, validated=val, bad=bad, samples=samples, queries=sol.queries, solver_s=round(sol.time, 3),
                   hard=sol.hard, slow=sol.slow[:10], functions=sorted(ex.funcs_used))
    except Exception as e:
        res['error'] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
    res['wall'] = round(time.time() - t0, 2)
    return res


def demangle(names):
    try:
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        return r.stdout.split('\n')[:len(names)]
    except Exception:
        return list(names)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--budget', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    tier = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = a.budget or (500 if tier == 'quick' else 820)
    import build
    srcs = sorted(glob.glob(os.path.join(VERIF, 'harness', pid + '_*.cpp')))
    concs = sorted(glob.glob(os.path.join(VERIF, 'conc', pid + '_*.cpp')))
    if not srcs and not concs:
        print(f"no harness for {pid}")
        return 2
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == pid]
    tmp = tempfile.mkdtemp(prefix=f'vf_{pid}_')
    extra = [f'-DVF_THOROUGH={1 if tier == "thorough" else 0}']
    try:
        ctx = mp.get_context('fork')
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as tp:
            fir = {s: tp.submit(build.build_ir, s, tmp, extra) for s in srcs}
            fna = {s: tp.submit(Native(s, tmp, extra).exe, '') for s in srcs}
            try:
                built = {s: f.result() for s, f in fir.items()}
                for f in fna.values():
                    f.result()
            except build.BuildError as e:
                print(f"ERROR building {pid}: {e}")
                return 2
        if a.replay:
            txt = open(a.replay).read()
            m = re.search(r'^% scenario (\S+) (\S+)', txt, re.M)
            if m:
                import conc
                src = [s for s in concs if os.path.basename(s) == m.group(1)][0]
                r = conc.replay(conc.native_exe(src, tmp, conc.scenarios(src)), m.group(2), a.replay, '\n% fences\n' not in txt)
                print(r or 'the native run is clean: the execution in the replay file is one the C++ memory model allows and this machine does not show')
                return 1 if r else 0
            m = re.search(r'^% harness (\S+) (\S+)', txt, re.M)
            src = [s for s in srcs if os.path.basename(s) == m.group(1)][0]
            for variant in ('', 'pattern', 'zero', 'clang'):
                rc, out, err = run_native(Native(src, tmp, extra).exe(variant), m.group(2), a.replay)
                print(f"[{variant or 'default'} build] exit {rc}\n{out[-1500:]}{err[-1500:]}")
                if rc not in (0, 77):
                    return 1
            return 0
        jobs = []
        for s in srcs:
            bc, o = built[s]
            o['known'] = known
            o['witnesses'] = 12 if tier == 'quick' else 40
            for h in o['harnesses']:
                if a.only and not re.search(a.only, h):
                    continue
                jobs.append((s, h, bc, tmp, extra, o, pid, tier, max(20, budget - (time.time() - t0))))
        results = []
        procs = {}
        queue = list(jobs)
        # one process per harness, so that a crash or memory limit hits only that harness
        while queue or procs:
            while queue and len(procs) < a.jobs:
                j = queue.pop(0)
                j = j[:-1] + (max(20, budget - (time.time() - t0)),)
                pr, pw = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(j, pw))
                p.start()
                pw.close()
                procs[p.pid] = (p, pr, j)
            time.sleep(0.02)
            for k in list(procs):
                p, pr, j = procs[k]
                if pr.poll():
                    try:
                        results.append(pr.recv())
                    except EOFError:
                        results.append(dict(harness=j[1], file=os.path.basename(j[0]), error=f'worker died (exit {p.exitcode})', violations=[], unconfirmed=[], wall=0))
                    p.join()
                    del procs[k]
                elif not p.is_alive():
                    results.append(dict(harness=j[1], file=os.path.basename(j[0]), error=f'worker died (exit {p.exitcode})', violations=[], unconfirmed=[], wall=0))
                    del procs[k]
            if any(r['violations'] for r in results) and not a.verbose:
                for p, pr, j in procs.values():
                    p.kill()
                    p.join()
                break
        # threads: every schedule and every behaviour the memory model allows
        for s in concs:
            if any(r['violations'] for r in results):
                break
            import conc
            try:
                results += conc.run(s, tmp, tier, max(20, budget - (time.time() - t0)), a.only, pid, a.jobs)
            except build.BuildError as e:
                print(f"ERROR building {pid}: {e}")
                return 2
            built[s] = (None, None)
        return finish(pid, tier, seed, t0, results, built, known, a, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _child(job, pw):
    import resource
    lim = int(os.environ.get('VF_MEM_GB', '12')) << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))
    r = worker(job)
    pw.send(r)
    pw.close()


def finish(pid, tier, seed, t0, results, built, known, a, tmp):
    results.sort(key=lambda r: (r['file'], r['harness']))
    viol = [(r, v) for r in results for v in r['violations']]
    errs = [r for r in results if r.get('error')]
    unconf = [(r, v) for r in results for v in r['unconfirmed']]
    mism = [(r, x) for r in results for x in r.get('mismatch', [])]
    # vacuity: every assertion and reachability marker in the harness sources has been reached
    vac = []
    if not a.only:
        for s, (bc, o) in built.items():
            txt = open(s).read()
            if tier != 'thorough':
                txt = txt.split('// vf-scenarios: thorough')[0]
            want_a = set(re.findall(r'vf_assert\((?:[^"]|"(?=[^"]*"[^"]*"))*?"([^"]+)"\s*\)\s*;', txt))
            want_r = set(re.findall(r'vf_reach\("([^"]+)"\)', txt))
            got_a = set()
            got_r = set()
            for r in results:
                if r['file'] == os.path.basename(s):
                    got_a |= set(r.get('sites', []))
                    got_r |= set(r.get('reached', {}))
            vac += [f"assertion never reached: {m}" for m in sorted(want_a - got_a)]
            vac += [f"marker never reached: {m}" for m in sorted(want_r - got_r)]
        for r in results:
            if not r.get('error') and not r['violations'] and not r.get('paths') and not r.get('no_paths_ok'):
                vac.append(f"harness {r['harness']} completed no path")
    if a.verbose or errs or unconf or mism:
        for r in results:
            print(f"  {r['file']}:{r['harness']} wall={r.get('wall')} paths={r.get('paths')} forks={r.get('forks')} merges={r.get('merges')} steps={r.get('steps')} asserts={r.get('asserts')} q={r.get('queries')} solver={r.get('solver_s')} hard={r.get('hard')} val={r.get('validated')} slow={r.get('slow')}")
            if r.get('error'):
                print('    ERROR', r['error'])
            for v in r['violations']:
                print('    VIOL', v['kind'], v['msg'], v['where'], v['native'], {n: x for n, b, x in v['inputs'][:40]})
            for v in r['unconfirmed']:
                print('    UNCONFIRMED', v['kind'], v['msg'], v['where'], v['native'], {n: x for n, b, x in v['inputs'][:40]})
            for x in r.get('mismatch', [])[:3]:
                print('    MISMATCH', x)
        for v in vac:
            print('    VACUOUS', v)
    if tier == 'quick' or True:
        fn = set()
        for r in results:
            fn |= set(r.get('functions', []))
        fn = sorted(f for f in demangle(sorted(fn)) if not f.startswith('vfh_'))
        repo_fns = [f for f in fn if not f.startswith(('std::', '__gnu', 'void std::', 'bool std::', 'auto std::'))]
        tot = lambda k: sum(r.get(k) or 0 for r in results)
        bounds = []
        for s in built:
            bounds += re.findall(r'^// vf-bound: (.*)$', open(s).read(), re.M)
        for r in results:
            bounds += r.get('bounds', [])
        cov = dict(states=tot('paths') + tot('forks') + tot('merges'), transitions=tot('steps'),
                   traces_validated_against_impl=tot('validated'),
                   samples=[x for r in results for x in r.get('samples', [])][:12],
                   harnesses={f"{r['file']}:{r['harness']}": dict(paths=r.get('paths'), states_merged=r.get('merged_states'), assertions_checked=r.get('asserts'), branch_decisions=r.get('branches'), memory_accesses_checked=r.get('accesses'), wall_s=r.get('wall')) for r in results},
                   queries_discharged=tot('queries'), solver_s=round(tot('solver_s'), 2), hard_queries=tot('hard'),
                   functions_encoded=len(fn), functions=repo_fns[:200], bounds=bounds,
                   states_rule='feasible symbolic path states: completed paths + forks + joins', transitions_rule='IR instructions executed symbolically')
        ass = []
        for s in built:
            ass += re.findall(r'^// vf-assume: (.*)$', open(s).read(), re.M)
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2),
                  violations=len(viol),
                  assumptions=ass + ['clang 18 IR of the harness (x86-64, 64-bit size_t) stands for the code; witnesses and counterexamples are replayed in a g++ build',
                                     'z3/cvc5/kissat answers and the executor (cross-checked by native witness replay) are trusted'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        if not a.only:
            with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
    rc = 0
    kn = sorted({i for r in results for i in r.get('known', [])})
    for k in known:
        if k['id'] in kn:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for r, v in viol:
            dst = os.path.join(rd, f"{pid}_{r['harness']}.txt")
            if v.get('file') and os.path.exists(v['file']):
                shutil.copy(v['file'], dst)
            print(f"violated: {v['kind']}: {v['msg']} [{r['file']}:{r['harness']}] at {v['where']}; native replay: {v['native']}")
            print(f"VIOLATION property={pid} replay={dst}")
        rc = 1
    elif errs or unconf or mism:
        print(f"ERROR property={pid}: {len(errs)} harness error(s), {len(unconf)} unconfirmed, {len(mism)} encoding mismatch(es)")
        rc = 2
    elif vac:
        print(f"ERROR property={pid}: vacuous: {vac[:5]}")
        rc = 2
    else:
        print(f"OK property={pid} tier={tier}: {sum(r.get('asserts') or 0 for r in results)} assertions over {sum(r.get('paths') or 0 for r in results)} symbolic paths, {sum(r.get('queries') or 0 for r in results)} queries, {sum(r.get('validated') or 0 for r in results)} native witnesses, {time.time() - t0:.1f}s")
    return rc


if __name__ == '__main__':
    sys.exit(main())
