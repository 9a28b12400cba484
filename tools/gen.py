#!/usr/bin/env python3
"""Generate properties.jsonl and MANIFEST.json from spec/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'spec'))
sys.dont_write_bytecode = True
from properties import PROPS, NA

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS + NA, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                   quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                   anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        f.write(json.dumps(rec) + '\n')
checks = []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py --property {i} --tier quick",
                       thorough_cmd=f"python3-vt check.py --property {i} --tier thorough",
                       technique=p.get('technique', 'symbolic execution of the LLVM IR of the real code, assertions decided by SMT'),
                       level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')
import jsonschema
sch = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
for l in open(os.path.join(V, 'properties.jsonl')):
    if sch:
        jsonschema.validate(json.loads(l), sch)
if os.path.exists('/root/.vp/MANIFEST.schema.json'):
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))

# ---- DESIGN.md: the parts taken from elsewhere
import glob, re
def head(f):
    t = open(f).read().split('#include')[0]
    first = t.split('\n')[0].lstrip('/ ').rstrip()
    g = lambda k: [m.strip() for m in re.findall(r'// vf-' + k + r': *(.*)', t)]
    return first, g('bound'), g('assume')
cost = json.load(open(os.path.join(V, 'spec', 'cost.json')))
out = []
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append('Code: ' + ', '.join(f'`{f}`' for f in p['files']) + '.')
    for f in sorted(glob.glob(os.path.join(V, 'harness', i + '_*.cpp')) + glob.glob(os.path.join(V, 'conc', i + '_*.cpp'))):
        first, b, a = head(f)
        n = len(re.findall(r'^VF_HARNESS\(|^SCEN3?\(', open(f).read(), re.M))
        kind = 'scenarios' if '/conc/' in f else 'harnesses'
        out.append(f"\n`{os.path.relpath(f, V)}` ({n} {kind}): {first}")
        for x in b:
            out.append('* Bounds: ' + x + '.')
        for x in a:
            out.append('* Assumed: ' + x + '.')
    if p['note'] and not p['note'].startswith('Exhaustive over'):
        out.append('* ' + p['note'].split(' Exhaustive over')[0])
    if i in cost:
        c = cost[i]
        out.append(f"* Cost (quick): {c['wall']:.0f} s, {c['assertions']} assertions on {c['paths']} paths, {c['queries']} queries.")
    out.append('')
D = os.path.join(V, 'DESIGN.md')
d = open(D).read()
def fill(d, mark, body):
    a = d.index('<!-- ' + mark)
    a = d.index('\n', a) + 1
    b = d.index('<!-- end -->', a)
    return d[:a] + body + '\n' + d[b:]
d = fill(d, 'generated', '\n' + '\n'.join(out))
kf = json.load(open(os.path.join(V, 'known_findings.json')))
d = fill(d, 'fixed', '\n'.join('* ' + x[len('fixed: property='):] for x in sorted(kf['fixed'], key=lambda x: x.split('=')[1].split()[0])))
rows = ['| change | property and check that reports it | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[-2]} | {m['property']}{m.get('caught', '')} | {m['what_it_breaks']} | {m['needs']} |")
d = fill(d, 'seeded', '\n'.join(rows))
open(D, 'w').write(d)
