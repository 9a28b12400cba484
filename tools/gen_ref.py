#!/usr/bin/env python3
"""Write harness/P43_ref.h: what the math tables and the functions reading them should give, from Python's math module."""
import math, os, struct
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'P43_ref.h')
g = lambda x: '%.9g' % struct.unpack('f', struct.pack('f', x))[0]
def lit(x):
    s = g(x)
    return (s if '.' in s or 'e' in s else s + '.0') + 'f'
f = open(OUT, 'w')
f.write('// generated by tools/gen_ref.py\n#pragma once\n')
def arr(name, vals):
    f.write(f'static const float {name}[{len(vals)}] = {{\n' + ',\n'.join(','.join(map(lit, vals[i:i + 12])) for i in range(0, len(vals), 12)) + '};\n')
def band(name, n, fn, tol):
    """lower and upper bounds; tol(value, i)"""
    v = [fn(i) for i in range(n)]
    arr(name + '_lo', [x - tol(x, i) for i, x in enumerate(v)])
    arr(name + '_hi', [x + tol(x, i) for i, x in enumerate(v)])
pi = math.pi
# the tables: every entry
band('t_sin', 2048, lambda i: math.sin(2 * pi * i / 2048), lambda x, i: 1.5e-6)
band('t_tan', 2048, lambda i: math.tan(pi * i / 2048) if i != 1024 else 0.0,
     lambda x, i: 3e7 if i == 1024 else 2e-6 + 1e-6 * abs(x) + 1e-7 * x * x)
band('t_exp5', 2048, lambda i: 2 ** (5 * i / 2047), lambda x, i: 2e-6 * x)
band('t_exp10', 2048, lambda i: 2 ** (10 * i / 2047), lambda x, i: 2e-6 * x)
band('t_log', 2048, lambda i: math.log(20 + 19980 * i / 2047), lambda x, i: 3e-6)
band('t_pow9', 2048, lambda i: (i / 2047) ** 8.8, lambda x, i: 3e-6)
# the functions at x = (i - 512) / 64
K = 1025
X = lambda i: (i - 512) / 64
h = 2 * pi / 2048
band('f_sin', K, lambda i: math.sin(X(i)), lambda x, i: 6e-6)
band('f_cos', K, lambda i: math.cos(X(i)), lambda x, i: 6e-6)
band('f_cosc', K, lambda i: math.cos(X(i)), lambda x, i: h + 6e-6)
# the interpolation error of tan grows with its cube; close to the poles nothing is asked
tt = lambda x, s: 1e30 if abs(x) > 8 else s * (1 + x * x) + 2e-6 * abs(x) ** 3 + 1e-5
band('f_tan', K, lambda i: math.tan(X(i)), lambda x, i: tt(x, 1e-6))
band('f_tanc', K, lambda i: math.tan(X(i)), lambda x, i: tt(x, 1.1 * h / 2) * (1 if abs(x) <= 8 else 1) + (h * h * abs(x) ** 3 if abs(x) <= 8 else 0))
band('f_pow2', K, lambda i: 2 ** ((i - 512) / 32), lambda x, i: 4e-6 * x)
band('f_sin01', K, lambda i: math.sin(2 * pi * (i - 512) / 256), lambda x, i: 3e-6)
# pitch multiples: 32^x from -1 to 1 in steps of 1/64
band('f_pitch', 129, lambda i: 32 ** ((i - 64) / 64), lambda x, i: 4e-6 * x)
# straight lines between the logarithms of 2048 equidistant frequencies
def normfreq(hz):
    p = (hz - 20) / 19980 * 2047
    k = min(int(p), 2046)
    a, b = (math.log(20 + 19980 * j / 2047) for j in (k, k + 1))
    return ((a + (b - a) * (p - k)) - math.log(20)) / math.log(1000)
band('f_norm', 512, lambda i: normfreq(20 + 39 * i), lambda x, i: 1e-5)
f.close()
