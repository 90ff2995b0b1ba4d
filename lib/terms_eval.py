"""values of terms for chosen values of their unknowns"""
import terms as T
from terms import *

def isnan_of(k): return k[0] == 'fop' and k[1].startswith('llvm.is.fpclass') and k[-1] == 3
# ---- evaluation of terms for chosen inputs
def evalc(v, env):
    if v.__class__ is int: return v
    if not is_poly(v): return None
    r = 0
    for m, c in v[1]:
        t = c
        for a in m:
            x = evala(a, env)
            if x is None: return None
            t *= x
        r += t
    return r
def evala(a, env):
    if a in env: return env[a]
    k = T.atom_key(a)
    r = None
    if k[0] == 'op' and len(k) == 4 and k[1] in ('sdiv', 'srem', 'udiv', 'urem'):
        x, y = evalc(k[2], env), evalc(k[3], env)
        if x is not None and y not in (None, 0):
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            r = q if 'div' in k[1] else x - q * y
    elif k[0] == 'op' and len(k) == 4 and k[1] in ('and', 'or', 'xor'):
        x, y = evalc(k[2], env), evalc(k[3], env)
        if x is not None and y is not None: r = x & y if k[1] == 'and' else x | y if k[1] == 'or' else x ^ y
    elif k[0] == 'cmp' and k[1] in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge'):
        x, y = evalc(k[2], env), evalc(k[3], env)
        if x is not None and y is not None and (k[1][0] != 'u' or (x >= 0 and y >= 0)):
            r = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k[1] if k[1] in ('eq', 'ne') else k[1][1:]])
    elif k[0] == 'bits':
        x = evalc(k[1], env)
        if x is not None: r = x & k[2] | k[3]
    elif isnan_of(k):
        x = T.single_atom(k[2]); x = T.atom_key(x) if x is not None else (None,)
        if x[0] == 'number' and x[2].__class__ is str and x[2] != 'nan': r = 0   # the chosen numbers are finite
    env[a] = r
    return r
