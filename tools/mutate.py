#!/usr/bin/env python3
"""Mutation campaign (development aid, no check uses it): random small changes to the headers in scratch copies of /repo;
those that pass the tests are given to the checks of the properties the file belongs to.
  mutate.py OUT.jsonl WORKERS PER_FILE SURVIVORS SEED [file...]"""
import sys, os, re, json, random, subprocess, shutil, time
import multiprocessing as mp
VERIF = os.environ.get('MUT_VERIF', '/verif')
out, nw, per, surv, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
files = sys.argv[6:]
ROOT = '/tmp/mut'
props = {}
for l in open(VERIF + '/properties.jsonl'):
    p = json.loads(l)
    for a in p['anchors']['files']:
        f = a.split(':')[0]
        props.setdefault(f, [])
        if p['id'] not in props[f]:
            props[f].append(p['id'])

OPS = [(r'(?<![<\w])<(?![<=])(?=\s)', '<='), (r'<=(?!>)', '<'), (r'(?<=\s)>(?![>=])(?=\s)', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'--', '++'), (r' \+ 1\b', ''), (r' - 1\b', ''),
       (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \* ', ' / '), (r' / ', ' * '), (r' & ', ' | '), (r'(?<=\s)\|(?=\s)', '&'),
       (r'<< ', '>> '), (r' >> ', ' << '), (r'(?<=\()!(?=\w)', ''), (r'(?<= )!(?=\w)', ''), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'(?<![\w.])0(?![\w.])', '1'),
       (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])([2-9]|\d\d+)(?![\w.])', 'INC'), (r'(\d+)\.(\d*)f', 'FINC'),
       (r'\breturn true;', ';'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'^\s*[\w.\[\]>*&-]+(\s*[-+|&]?=\s*|\+\+|--|\().*;\s*$', 'DEL'), (r'\bif \((?!constexpr)', 'if (!('), (r' % ', ' / ')]


def mutants(path):
    res = []
    src = open(path).read().split('\n')
    block = False
    for n, l in enumerate(src):
        t = l.strip()
        if t.startswith('/*'):
            block = True
        if '*/' in t:
            block = False
            continue
        if block or not t or t.startswith(('//', '#', 'static_assert', 'template', 'using ', 'requires', 'namespace', 'class ', 'struct ')):
            continue
        code = l.split('//')[0]
        for i, (rx, rep) in enumerate(OPS):
            for m in re.finditer(rx, code):
                if rep == 'DEL':
                    new = ';'
                elif rep == 'INC':
                    new = l[:m.start()] + str(int(m.group(0)) + 1) + l[m.end():]
                elif rep == 'FINC':
                    new = l[:m.start()] + str(int(m.group(1)) + 1) + '.' + m.group(2) + 'f' + l[m.end():]
                elif rep == 'if (!(':
                    # only when the condition closes on the same line
                    d, j = 1, m.end()
                    while j < len(l) and d:
                        d += l[j] == '('
                        d -= l[j] == ')'
                        j += 1
                    if d:
                        continue
                    new = l[:m.start()] + 'if (!(' + l[m.end():j] + ')' + l[j:]
                else:
                    new = l[:m.start()] + rep + l[m.end():]
                if new != l:
                    res.append((n, l.strip(), new.strip(), new))
    return res


def sh(cmd, cwd, t, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, timeout=t, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    except subprocess.TimeoutExpired:
        return None


def work(k, q, lock):
    w = f'{ROOT}/w{k}'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w)
    sh('make -j3 -f tests/Makefile tests/build/runtests; make -j3 -f /opt/vp/headers.mk', w, 600)
    while True:
        try:
            f, ms = q.get(timeout=3)
        except Exception:
            return
        orig = open(f'{w}/{f}').read()
        alive = 0
        for n, old, new, full in ms:
            if alive >= surv:
                break
            lines = orig.split('\n')
            lines[n] = full
            open(f'{w}/{f}', 'w').write('\n'.join(lines))
            r = sh('make -j3 -f tests/Makefile tests/build/runtests && make -j3 -f /opt/vp/headers.mk', w, 300)
            rec = dict(file=f, line=n + 1, old=old, new=new)
            if r is None or r.returncode:
                rec['status'] = 'compile'
            else:
                r = sh('tests/build/runtests', w, 20)
                if r is None or r.returncode:
                    rec['status'] = 'tests'
                else:
                    alive += 1
                    rec['status'] = 'MISSED'
                    rec['by'] = []
                    t0 = time.time()
                    env = dict(os.environ, VF_REPO=w)
                    for p in props.get(f, []):
                        c = sh(f'python3-vt check.py --property {p} --jobs 4', VERIF, 900, env)
                        if c is None:
                            rec['by'].append(p + ':timeout')
                        elif c.returncode == 1:
                            rec['status'] = 'caught'
                            rec['by'].append(p)
                            break
                        elif c.returncode:
                            rec['by'].append(p + ':err')
                            rec['err'] = c.stdout.decode(errors='replace')[-400:]
                    rec['t'] = round(time.time() - t0, 1)
            with lock:
                open(out, 'a').write(json.dumps(rec) + '\n')
        open(f'{w}/{f}', 'w').write(orig)
        sh('make -j3 -f tests/Makefile tests/build/runtests && make -j3 -f /opt/vp/headers.mk', w, 300)


if __name__ == '__main__':
    rnd = random.Random(seed)
    todo = files or sorted(props)
    q = mp.Queue()
    lock = mp.Lock()
    for f in todo:
        p = '/repo/' + f
        if not os.path.exists(p):
            continue
        ms = mutants(p)
        rnd.shuffle(ms)
        q.put((f, ms[:per]))
    ps = [mp.Process(target=work, args=(k, q, lock)) for k in range(nw)]
    [p.start() for p in ps]
    [p.join() for p in ps]
