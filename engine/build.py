"""Compile a harness together with the current sources of /repo: to LLVM IR for the executor and natively for replay."""
import os
import re
import subprocess

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARN = os.path.join(VERIF, 'harness')

UB = 'signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,return,unreachable,bool'
INC = ['-std=c++20', f'-I{HARN}', f'-I{REPO}', f'-I{REPO}/tests/../', '-include', 'concepts', '-include', 'cstdint']
PASSES = 'cgscc(inline),function(sroa,early-cse,simplifycfg,sroa,early-cse,simplifycfg)'


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(f"command failed: {' '.join(cmd)}\n{r.stderr[-6000:]}")
    return r.stdout


def parse_opts(src):
    txt = open(src).read()
    opts = {'flags': [], 'ir_flags': [], 'native_flags': [], 'engine': {}, 'sources': []}
    for m in re.finditer(r'^// vf-(flags|ir-flags|native-flags|opt|source): (.*)$', txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'flags':
            opts['flags'] += v.split()
        elif k == 'ir-flags':
            opts['ir_flags'] += v.split()
        elif k == 'native-flags':
            opts['native_flags'] += v.split()
        elif k == 'source':
            opts['sources'] += v.split()
        else:
            for kv in v.split():
                a, b = kv.split('=')
                opts['engine'][a] = int(b) if b.lstrip('-').isdigit() else b
    opts['harnesses'] = re.findall(r'^VF_HARNESS\((\w+)\)', txt, re.M)
    for a, m in re.findall(r'^VF_HARNESS_T\((\w+)\s*,\s*(.*)\)\s*$', txt, re.M):
        pass
    # macro-generated harnesses: "// vf-harness: name name ..."
    for m in re.finditer(r'^// vf-harness: (.*)$', txt, re.M):
        opts['harnesses'] += m.group(1).split()
    return opts


def _cc(names):
    for c in names:
        if _has(c):
            return c
    return names[-1]


def build_ir(src, outdir, extra=()):
    o = parse_opts(src)
    base = os.path.splitext(os.path.basename(src))[0]
    raw = os.path.join(outdir, base + '.raw.bc')
    bc = os.path.join(outdir, base + '.bc')
    common = [_cc(['/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++'])] + INC + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-gline-tables-only', '-emit-llvm', '-c',
                                  '-ffp-contract=off', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
                                  '-D_LIBCPP_DISABLE_EXTERN_TEMPLATE', '-DVF_SYMBOLIC=1', '-fno-builtin', '-w', '-Wno-c++11-narrowing',
                                  f'-fsanitize={UB}', f'-fsanitize-trap={UB}', '-fno-delete-null-pointer-checks']
    cmd = common + o['flags'] + o['ir_flags'] + list(extra)
    sh(cmd + [src, '-o', raw])
    mods = [raw]
    for s in o['sources'] + [os.path.join(HARN, 'vf_lib.cpp')]:
        p = s if os.path.isabs(s) else os.path.join(REPO, s)
        ob = os.path.join(outdir, base + '.' + os.path.basename(s) + '.bc')
        sh(cmd + [p, '-o', ob])
        mods.append(ob)
    if len(mods) > 1:
        linked = os.path.join(outdir, base + '.l.bc')
        sh([_tool('llvm-link')] + mods + ['-o', linked])
        raw = linked
    sh([_tool('opt'), f'-passes={PASSES}', raw, '-o', bc])
    return bc, o


def _has(x):
    from shutil import which
    return which(x) is not None


def _tool(x):
    for c in (f'/usr/bin/{x}-18', f'/usr/bin/{x}', f'/usr/lib/llvm-18/bin/{x}'):
        if _has(c) or os.path.exists(c):
            return c
    return x


def build_native(src, outdir, variant='', extra=()):
    """variant: '' | pattern | zero | clang"""
    o = parse_opts(src)
    base = os.path.splitext(os.path.basename(src))[0]
    tab = os.path.join(outdir, base + variant + '.tab.cpp')
    with open(tab, 'w') as f:
        f.write('struct vf_entry { const char *name; void (*fn)(); };\n')
        for h in o['harnesses']:
            f.write(f'extern "C" void vfh_{h}();\n')
        f.write('extern vf_entry vf_table[];\nvf_entry vf_table[] = {')
        for h in o['harnesses']:
            f.write(f'{{"{h}", vfh_{h}}},')
        f.write('{nullptr, nullptr}};\n')
    out = os.path.join(outdir, base + variant + '.exe')
    cc = _cc(['/usr/bin/clang++-18', '/usr/bin/clang++', 'clang++']) if variant == 'clang' else 'g++'
    ub = UB
    fl = ['-O1', '-g1', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', f'-fsanitize={ub}', '-fno-sanitize-recover=all']
    if variant == 'pattern':
        fl += ['-ftrivial-auto-var-init=pattern']
    if variant == 'zero':
        fl += ['-ftrivial-auto-var-init=zero']
    srcs = [s if os.path.isabs(s) else os.path.join(REPO, s) for s in o['sources']]
    sh([cc] + INC + fl + o['flags'] + o['native_flags'] + list(extra) + ['-ffp-contract=off', src, os.path.join(HARN, 'vf_native.cpp'), tab] + srcs + ['-o', out])
    return out
