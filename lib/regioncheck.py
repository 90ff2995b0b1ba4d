"""D05: every kind of region in every operation.  D06: bounds and conversions of points and pixels.

Regions are small and complete: a polygon of one to three points with unknown coordinates, masks of a few pixels with
unknown contents, a rectangle and a special region with unknown values.  Memory of a region holds exactly what its kind
owns, so reading the storage of another kind is reading memory that was never set.  Coordinates are kept as linear
forms over the unknowns; comparisons split paths and are kept in a zone (difference bounds with strictness), in which
the extremes of the points are looked up at the end of each path."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, UNDEF, eq, refine, assume_ne
from core import Base, show_trace
from result import Result

FMAX = 3.4028234663852886e+38
REG = ('heap', 'region', 0); XS = ('heap', 'x coordinates', 0); YS = ('heap', 'y coordinates', 0); PX = ('heap', 'pixels', 0); VAR = ('ext', 'variable')
KINDS = ('SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK')

# ------------------------------------------------------------------------------------------------ linear forms
def env(name): return T.A(('env', name))
def ladd(a, b, k=1):
    d = dict(a)
    for x, c in b.items():
        d[x] = d.get(x, 0) + k * c
        if d[x] == 0: del d[x]
    return d
def lscale(a, k): return {x: c * k for x, c in a.items() if c * k != 0}
def lconst(a):
    return a.get((), 0) if all(x == () for x in a) else None
def canon(a): return tuple(sorted(a.items(), key=repr))
def isint(a):
    for x, c in a.items():
        if c != int(c): return False
        if x == (): continue
        if x[0] in ('floor', 'ceil', 'round', 'trunc'): continue
        if x[0] == 'env' and x[1].startswith('i '): continue
        return False
    return True
def fun(f, l):
    if isint(l): return l
    c = l.get((), 0)
    if c == int(c) and c and f in ('floor', 'ceil'):
        r = dict(l); del r[()]
        return ladd({(f, canon(r)): 1}, {(): c})
    return {(f, canon(l)): 1}
def lin(v):
    if v.__class__ is int: return {(): v} if v else {}
    if v.__class__ is tuple and v and v[0] == 'fl': return {(): v[1]} if v[1] == v[1] and abs(v[1]) != float('inf') and v[1] else {} if v[1] == 0 else {('odd', repr(v[1])): 1}
    if v.__class__ is tuple and v and v[0] == 'P':
        r = {}
        for m, c in v[1]:
            if m == (): t = {(): 1}
            elif len(m) == 1: t = base(m[0])
            else:
                t = {('prod', tuple(sorted((canon(base(a)) for a in m), key=repr))): 1}
                fs = [base(a) for a in m]
            r = ladd(r, t, c)
        return r
    return {('opaque', repr(v)): 1}
_base = {}
def base(a):
    if a not in _base: _base[a] = base_(a)
    return _base[a]
def base_(a):
    k = T.atom_key(a)
    if k[0] == 'env': return {k: 1}
    if k[0] == 'fop':
        n = k[1]
        if n in ('fadd', 'fsub'): return ladd(lin(k[2]), lin(k[3]), 1 if n == 'fadd' else -1)
        if n == 'fneg': return lscale(lin(k[2]), -1)
        if n in ('fmul', 'fdiv') or 'fmuladd' in n:
            x, y = lin(k[2]), lin(k[3])
            cx, cy = lconst(x), lconst(y)
            r = None
            if n == 'fdiv': r = lscale(x, 1.0 / cy) if cy else None
            elif cx is not None: r = lscale(y, cx)
            elif cy is not None: r = lscale(x, cy)
            if r is None: r = {('nonlin', n, canon(x), canon(y)): 1}
            return ladd(r, lin(k[4])) if 'fmuladd' in n else r
        for f in ('floor', 'ceil', 'round', 'trunc'):
            if n.rstrip('fl').endswith(f) or n == f or n.startswith('llvm.' + f) or n == f + 'f': return fun(f, lin(k[2]))
    if k[0] == 'op' and k[1] == 'sitofp': return lin(k[2])
    if k[0] == 'op' and k[1] == 'fptosi': return fun('trunc', lin(k[2]))
    return {('opaque', repr(k)): 1}
def envs(l):
    out = set()
    def go(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'env': out.add(x[1]); return
            for y in x: go(y)
    for x in l: go(x)
    return out
def known(l):
    def ok(x):
        return x == () or x[0] == 'env' or (x[0] in ('floor', 'ceil', 'round', 'trunc') and all(ok(y) for y, c in x[1]))
    return all(ok(x) for x in l)
def huge(l): return abs(l.get((), 0)) > 1e30
def show(l):
    if not l: return '0'
    def b(x): return x[1].replace('i ', '') if x[0] == 'env' else '%s(%s)' % (x[0], show(dict(x[1]))) if x[0] in ('floor', 'ceil', 'round', 'trunc') else '?'
    def n(c): return 'FLT_MAX' if c == FMAX else '-FLT_MAX' if c == -FMAX else '%g' % c
    return ' + '.join(n(c) if x == () else b(x) if c == 1 else '%s*%s' % (n(c), b(x)) for x, c in sorted(l.items(), key=repr))
DIM = {}
def dims(l): return {DIM.get(e) for e in envs(l)} - {None}

# ------------------------------------------------------------------------------------------------ zones
def diff(d):
    """(p, q, w): p - q <= w stands for d <= 0; None when d is not a difference"""
    w = -d.get((), 0); p = q = 'zero'
    for x, c in d.items():
        if x == (): continue
        if c == 1 and p == 'zero': p = x
        elif c == -1 and q == 'zero': q = x
        else: return None
    return p, q, w
def closure(facts):
    N = {'zero'}
    E = {}
    def put(p, q, w, s):
        o = E.get((p, q))
        if o is None or w < o[0] or (w == o[0] and s and not o[1]): E[(p, q)] = (w, s)
    for d, s in facts:
        r = diff(dict(d))
        if r is None: continue
        N.add(r[0]); N.add(r[1]); put(r[0], r[1], r[2], s)
    for x in N:
        if x != 'zero' and x[0] == 'env': put(x, 'zero', FMAX, True); put('zero', x, FMAX, True)
    for k in N:
        for i in N:
            a = E.get((i, k))
            if a is None: continue
            for j in N:
                b = E.get((k, j))
                if b is None: continue
                put(i, j, a[0] + b[0], a[1] or b[1])
    for x in N:
        o = E.get((x, x))
        if o is not None and (o[0] < 0 or (o[0] == 0 and o[1])): return None
    return E
_cl = {}
def zone(facts):
    if facts not in _cl:
        if len(_cl) > 20000: _cl.clear()
        _cl[facts] = closure(facts)
    return _cl[facts]
def holds(facts, d, strict):
    """does d <= 0 (or d < 0) hold: True / False / None"""
    c = lconst(d)
    if c is not None: return c < 0 if strict else c <= 0
    if diff(d) is None: return None
    if zone(facts | {(canon(d), strict)}) is None: return False
    if zone(facts | {(canon(lscale(d, -1)), not strict)}) is None: return True
    return None
def consistent(facts, more): return zone(facts | frozenset(more)) is not None

class Reg(Base):
    part_limit = 4000; max_states = 20000; max_heads = 9000; steps = 900000; order = True
    def __init__(s, P, entry):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models); s.mixed = {}
        for n in ('floor', 'ceil', 'round', 'trunc'):
            for k in (n, n + 'f'): s.models[k] = s.unary(n)
        for n, k in (('fmin', -1), ('fminf', -1), ('fmax', 1), ('fmaxf', 1)): s.models[n] = s.extreme(k)
        s.models['memset'] = s.memset
        for n in ('buffer_create', 'buffer_append', 'buffer_size', 'buffer_extract', 'buffer_destroy', 'rasterize_polygon'):
            if [f for f in P.bysrc.get(n, []) if not f.decl]: s.models[n] = getattr(s, 'm_' + n)
    def mon_key(s, st):
        # what is known of the pixels and every floating value on the stack tell states apart
        px = []
        for o, m in st.mem.items():
            if o[0] == 'heap' and o[1].__class__ is str and o[1].startswith('pixels'):
                for k, x in m.items():
                    a = single_atom(x[0]) if is_poly(x[0]) else None
                    if a is not None and a in st.info: px.append((k, eq(st, x[0], 0)))
        fl = [(o, k, x[0]) for o, m in st.mem.items() if o[0] == 'stack' for k, x in m.items() if isinstance(x, tuple) and len(x) == 2 and (is_poly(x[0]) or (x[0].__class__ is tuple and x[0][0] == 'fl'))]
        return (tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr)), tuple(sorted(px, key=repr)), tuple(sorted(fl, key=repr)))
    def unary(s, n):
        def m(I, st, fr, ins, a):
            if a[0].__class__ is tuple and a[0][0] == 'fl':
                import math
                return [(st, ('fl', float({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + .5) * (1 if x >= 0 else -1)}[n](a[0][1])) if abs(a[0][1]) < 1e15 else a[0][1]))]
            return [(st, T.A(('fop', n, a[0])))]
        return m
    def extreme(s, k):
        def m(I, st, fr, ins, a):
            out = []
            for t, lt in s.less(st, a[0], a[1]): out.append((t, a[0] if lt == (k < 0) else a[1]))
            return out
        return m
    def less(s, st, a, b):
        """[(state, a < b)]"""
        d = ladd(lin(a), lin(b), -1)
        s.note_mix(st, d)
        r = holds(st.mon.get('ord', frozenset()), d, True)
        if r is not None: return [(st, r)]
        t = st.copy(); u = st.copy(); f = st.mon.get('ord', frozenset())
        t.mon['ord'] = f | {(canon(d), True)}; u.mon['ord'] = f | {(canon(lscale(d, -1)), False)}
        return [(t, True), (u, False)]
    def note_mix(s, st, d, fr=None, ins=None):
        if known(d) and len(dims(d)) > 1 and fr is not None: s.mixed.setdefault((fr.f.where(ins), fr.f.src), (show(d), show_trace(st.notes(6))))
    def memset(s, I, st, fr, ins, a):
        p, c, n = a[0], a[1], I.num(st, a[2], (fr.uid, ins.id, 'n'))
        if is_ptr(p) and is_int(n) and is_int(p[2]) and is_int(c) and 0 < n <= 256:
            q = I.check_ptr(st, fr, ins, p, 'write')
            if q is None: return []
            s.on_access(I, st, fr, ins, q, n, 'write')
            c = ((c & 255) ^ 128) - 128
            if c == 0 and q[2] == 0 and st.objs[q[1]][1] == n: st.mem[q[1]] = {'zero': True}
            else:
                for k in range(n): I.setmem(st, q[1], q[2] + k, c, 1)
            return [(st, p)]
        return libc.m_memset(I, st, fr, ins, a)
    # ---- texts
    def m_buffer_create(s, I, st, fr, ins, a): return [(st, ('p', ('ext', 'text buffer'), 0))]
    def m_buffer_append(s, I, st, fr, ins, a): st.mon['text'] = 1; return [(st, 1)]
    def m_buffer_size(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 1, 1 << 20) if st.mon.get('text') else 0)]
    def m_buffer_extract(s, I, st, fr, ins, a): return [(st, ('p', ('ext', 'text'), 0))]
    def m_buffer_destroy(s, I, st, fr, ins, a): return [(st, None)]
    # ---- filling of polygons is not followed; what it is given is kept
    def m_rasterize_polygon(s, I, st, fr, ins, a):
        p = a[0]; o = {}
        if is_ptr(p):
            g = lambda n: s.prog.field('region_polygon', n)
            m = st.mem.get(p[1]) or {}
            def cell(n):
                x = m.get(p[2] + g(n)[0]); return x[0] if x else None
            n, xs, ys = cell('count'), cell('x'), cell('y')
            if not is_int(n):
                if n is None: s.rep(I, st, fr, ins, 'undef', 'a region without points is rasterized')
                n = None
            if n is not None and xs and ys and is_ptr(xs) and is_ptr(ys):
                for q in (xs, ys):
                    if st.objs.get(q[1], ('', 0, 'live'))[2] == 'freed': s.on_freed(I, st, fr, ins, q, 'read'); return []
                get = lambda q, k: (st.mem.get(q[1]) or {}).get(q[2] + 4 * k, (None, 4))[0]
                o = (tuple((get(xs, k), get(ys, k)) for k in range(n)))
                if is_ptr(a[1]): st.mon['fill'] = st.mon.get('fill', ()) + ((o, a[1], a[2], a[3], fr.f.where(ins), fr.f.src),)
        if is_ptr(a[1]) and a[1] != NULL and a[1][1] in st.objs:
            z = I.obj_size(st, a[1][1]); n = mul(I.num(st, a[2], (fr.uid, ins.id, 'w')), I.num(st, a[3], (fr.uid, ins.id, 'h')))
            if z is not None and n is not None and is_num(z): s.sized(I, st, fr, ins, add(a[1][2], n), z)
            I.havoc(st, a[1][1])
        return [(st, I.fresh(st, (fr.uid, ins.id, 'sum'), 0, 1 << 30))]
    def sized(s, I, st, fr, ins, n, z):
        d = ladd(lin(n), lin(z), -1); c = lconst(d)
        if c is not None and c > 0: s.rep(I, st, fr, ins, 'oob', 'a picture of %s pixels is drawn in a block of %s bytes' % (show(lin(n)), show(lin(z))))
        s.accesses['proved'] += 1
    # ---- floats
    def split_fcmp(s, I, st, fr, ins):
        a, b = I.val(st, ins.o[0]), I.val(st, ins.o[1])
        if UNDEF in (a, b) or a is None or b is None: return None
        p = ins.d['pred']
        if p in ('ord', 'uno', 'true', 'false'): return None
        d = ladd(lin(a), lin(b), -1); f = st.mon.get('ord', frozenset())
        s.note_mix(st, d, fr, ins)
        if s.rel(f, p[1:], d) is not None or (ins.id, fr.uid) in dict(st.mon.get('opq', ())): return None
        opts = []
        for strict3 in (-1, 0, 1):
            fs = {(canon(d), True)} if strict3 < 0 else {(canon(lscale(d, -1)), True)} if strict3 > 0 else {(canon(d), False), (canon(lscale(d, -1)), False)}
            if p[1:] in ('lt', 'ge') and strict3 == 0: continue
            if p[1:] in ('lt', 'ge') and strict3 == 1: fs = {(canon(lscale(d, -1)), False)}
            if p[1:] in ('gt', 'le') and strict3 == 0: continue
            if p[1:] in ('gt', 'le') and strict3 == -1: fs = {(canon(d), False)}
            opts.append(fs)
        out = []
        for fs in opts:
            if diff(d) is not None and not consistent(f, fs): continue
            t = st.copy(); t.mon['ord'] = f | fs
            if diff(d) is None: t.mon['unk'] = True
            t.note('%s: %s' % (fr.f.where(ins), ' and '.join('%s %s 0' % (show(dict(x)), '<' if s_ else '<=') for x, s_ in sorted(fs, key=repr))))
            out.append(t)
        return out
    def rel(s, f, p, d):
        n = lscale(d, -1)
        if diff(d) is None and lconst(d) is None:
            c, cn = canon(d), canon(n)
            has = lambda x, st_: (x, True) in f or (not st_ and (x, False) in f)
            if p == 'lt': return True if has(c, True) else False if has(cn, False) else None
            if p == 'ge': return False if has(c, True) else True if has(cn, False) else None
            if p == 'gt': return True if has(cn, True) else False if has(c, False) else None
            if p == 'le': return False if has(cn, True) else True if has(c, False) else None
            if p in ('eq', 'ne'):
                r = True if (c, False) in f and (cn, False) in f else False if (c, True) in f or (cn, True) in f else None
                return r if p == 'eq' or r is None else not r
            return None
        if p == 'lt': return holds(f, d, True)
        if p == 'le': return holds(f, d, False)
        if p == 'gt': return holds(f, n, True)
        if p == 'ge': return holds(f, n, False)
        if p in ('eq', 'ne'):
            a, b = holds(f, d, False), holds(f, n, False)
            r = False if False in (a, b) else True if a and b else None
            return r if p == 'eq' or r is None else not r
        return None
    def fcmp(s, I, st, fr, ins, p, a, b):
        if UNDEF in (a, b): s.on_undef(I, st, fr, ins, 'comparison'); return None
        if a is None or b is None: return None
        if p == 'ord': return 1
        if p == 'uno': return 0
        r = s.rel(st.mon.get('ord', frozenset()), p[1:], ladd(lin(a), lin(b), -1))
        return None if r is None else int(r)
    def on_load(s, I, st, fr, ins, p, v):
        if v == UNDEF and ins.t == 'float' and is_ptr(p) and p[1][0] == 'heap': s.on_undef(I, st, fr, ins, 'load')
        if is_ptr(p) and p[1] == PX: st.mon['reads'] = st.mon.get('reads', frozenset()) | {p[2]}
        return v
    def on_assert(s, I, st, fr, ins, e):
        # an assertion about an amount computed from coordinates is not judged here
        t = st.trace
        while t:
            x = t[1]
            if x.__class__ is tuple and len(x) == 3 and is_num(x[1]):
                for a in T.deep_of(x[1]):
                    k = T.atom_key(a)
                    if k[0] in ('op', 'fop'): return
                break
            t = t[0]
        Base.on_assert(s, I, st, fr, ins, e)

class Shape(object):
    """a region of a kind with its expected contents"""
    def __init__(s, kind, n=0, w=0, h=0, x=None, y=None): s.kind = kind; s.n = n; s.w = w; s.h = h; s.x = x; s.y = y
    def name(s):
        return {'POLYGON': 'polygon of %d points' % s.n, 'MASK': 'mask of %dx%d pixels' % (s.w, s.h), 'RECTANGLE': 'rectangle', 'SPECIAL': 'special region'}[s.kind]

def place(P, st, sh, tag='', K=None):
    """puts a region in memory; returns its object"""
    o = REG if not tag else ('heap', 'region' + tag, 0)
    xs, ys, px = [x if not tag else ('heap', x[1] + tag, 0) for x in (XS, YS, PX)]
    d = P.field('region_container', 'data')[0]; t = P.field('region_container', 'type')
    st.objs[o] = ('heap', P.didx['region_container']['size'], 'live', 'the region' + tag)
    m = st.mem[o] = {t[0]: (K[sh.kind], t[1])}
    def put(s_, n, v): f = P.field(s_, n); m[d + f[0]] = (v, f[1])
    def num(name, dim):
        DIM[name] = dim; return env(name)
    if sh.kind == 'SPECIAL': m[d] = (atom_int(st, 'i code' + tag, -(1 << 31), (1 << 31) - 1), 4)
    elif sh.kind == 'RECTANGLE':
        for n, q in (('x', 'h'), ('y', 'v'), ('width', 'h'), ('height', 'v')): put('region_rectangle', n, num('rectangle ' + n + tag, q))
    elif sh.kind == 'POLYGON':
        put('region_polygon', 'count', sh.n); put('region_polygon', 'x', ('p', xs, 0)); put('region_polygon', 'y', ('p', ys, 0))
        for q, c, dm in ((xs, 'x', 'h'), (ys, 'y', 'v')):
            st.objs[q] = ('heap', 4 * sh.n, 'live', q[1]); st.mem[q] = {4 * k: (num('%s%d%s' % (c, k, tag), dm), 4) for k in range(sh.n)}
    elif sh.kind == 'MASK':
        X = sh.x if sh.x is not None else atom_int(st, 'i mask x' + tag, -(1 << 20), 1 << 20); Y = sh.y if sh.y is not None else atom_int(st, 'i mask y' + tag, -(1 << 20), 1 << 20)
        DIM['i mask x' + tag] = 'h'; DIM['i mask y' + tag] = 'v'
        for n, v in (('x', X), ('y', Y), ('width', sh.w), ('height', sh.h), ('data', ('p', px, 0))): put('region_mask', n, v)
        st.objs[px] = ('heap', sh.w * sh.h, 'live', px[1]); q = st.mem[px] = {}
        for k in range(sh.w * sh.h):
            a = T.A(('env', 'i pixel %d%s' % (k, tag))); refine(st, single_atom(a), -128, 127); q[k] = (a, 1)
    st.roots = (frozenset(st.roots[0] if st.roots else ()) | {o, VAR},)
    return o
def atom_int(st, name, lo, hi):
    v = T.A(('env', name)); refine(st, single_atom(v), lo, hi); return v

class Check(object):
    def __init__(s, P, r, pid):
        s.P = P; s.r = r; s.pid = pid; s.K = {k: P.enum_value(k) for k in KINDS}; s.cov = {}; s.C = core.consts()
        s.PUB = {k: s.C['TRAX_REGION_' + k] for k in KINDS}
    def fn(s, n): return [f for f in s.P.bysrc.get(n, []) if not f.decl]
    def wh(s, n):
        f = s.fn(n)[0]; return '%s:%s' % (ir.short(f.file), f.line)
    def state(s): st = State(); st.mon = {}; st.roots = (frozenset(),); st.objs[VAR] = ('ext', 64, 'ext', 'variable'); return st
    def run(s, name, st, args, label, public=True, flags=None):
        f = s.fn(name)
        if not f:
            if public: raise build.Broken('%s is not defined' % name)
            s.r.inconclusive.append('%s is not there' % name); return None, None, []
        if f[0].nargs != len(args): s.r.inconclusive.append('%s takes other arguments' % name); return None, None, []
        c = Reg(s.P, name)
        if flags is not None and s.flagvar(): st.mem[('G', s.flagvar())] = {0: (flags, 4)}
        I = Interp(s.P, c)
        try: outs = I.call_function(f[0], st, args, 'API', 0, ())
        except Budget: s.r.inconclusive.append('%s of a %s: analysis did not finish' % (name, label)); return c, I, []
        d = s.cov.setdefault(name, {'runs': 0, 'paths': 0}); d['runs'] += 1; d['paths'] += len(outs)
        if s.pid == 'D05':
            for x in c.reports.values():
                if x.kind == 'leak' and name not in ('trax_region_release', 'trax_region_clone', 'trax_region_convert', 'trax_region_encode', 'trax_region_overlap', 'trax_region_contains', 'trax_region_bounds'): continue
                s.r.ob(False, x.where, x.func, '%s of a %s: %s' % (name, label, x.what), x.trace, '%s-%s-%s' % (name, x.kind, x.func))
            s.r.ob(True, s.wh(name), name, '')
            s.r.obligations += c.accesses['proved']; s.r.discharged += c.accesses['proved']
        else:
            for (w, fu), (tx, tr) in c.mixed.items(): s.r.ob(False, w, fu, '%s of a %s: a horizontal and a vertical coordinate are compared (%s)' % (name, label, tx), tr, 'mixed-' + fu)
        return c, I, [(s2, v) for s2, v, k in outs if k == 'ret']
    def flagvar(s):
        f = s.fn('region_set_flags')
        if not f: return None
        for b in f[0].blocks:
            for i in b:
                if i.op == 'store' and i.o[1][0] == 'g': return i.o[1][1]
        return None
    # -------------------------------------------------------------------------------- reading a region
    def fields(s, st, o):
        """(kind, {field: value}) of the region at an object; None for what was not set"""
        P = s.P; m = st.mem.get(o) or {}
        d = P.field('region_container', 'data')[0]; t = P.field('region_container', 'type')[0]
        any_ = '*' in m
        def cell(off):
            x = m.get(off); return x[0] if x else '?' if any_ else None
        k = cell(t)
        kind = next((n for n, v in s.K.items() if v == k), None)
        if kind is None: return k, {}
        if kind == 'SPECIAL': return kind, {'special': cell(d)}
        S = {'RECTANGLE': 'region_rectangle', 'POLYGON': 'region_polygon', 'MASK': 'region_mask'}[kind]
        return kind, {x: cell(d + P.field(S, x)[0]) for x in {'RECTANGLE': ('x', 'y', 'width', 'height'), 'POLYGON': ('count', 'x', 'y'), 'MASK': ('x', 'y', 'width', 'height', 'data')}[kind]}
    def array(s, st, p, n, z):
        if not is_ptr(p) or p == NULL: return None
        m = st.mem.get(p[1]) or {}
        out = []
        for k in range(n):
            x = m.get(p[2] + k * z) if is_int(p[2]) else None
            out.append(x[0] if x and x[1] == z else ('?' if '*' in m else 0 if 'zero' in m else None))
        return out

def shapes(tier):
    L = [Shape('SPECIAL'), Shape('RECTANGLE')] + [Shape('POLYGON', n=n) for n in (1, 2, 3)] + [Shape('MASK', w=w, h=h) for w, h in ((1, 1), (2, 1), (1, 2), (2, 2))]
    if tier == 'thorough': L += [Shape('MASK', w=3, h=2), Shape('MASK', w=2, h=3)]
    return L
# ------------------------------------------------------------------------------------------------ D05
def d05(c, tier):
    P, r, K = c.P, c.r, c.K
    def complete(st, o, kind, wh, name, label, src, tr, n=None):
        """is the region at o whole: everything its kind owns is set, its arrays are its own and large enough"""
        k, f = c.fields(st, o)
        r.ob(k == kind, wh, name, '%s: the result is a %s' % (label, k), tr, '%s-kind' % name)
        if k != kind: return None
        for x, v in f.items(): r.ob(None if v == '?' else v is not None and v != UNDEF, wh, name, '%s: field %s of the result is not set' % (label, x), tr, '%s-unset-%s' % (name, x))
        arr = [(x, f[x]) for x in ('x', 'y') if kind == 'POLYGON'] + [('data', f['data'])] if kind == 'MASK' else [(x, f[x]) for x in ('x', 'y')] if kind == 'POLYGON' else []
        seen = set()
        for x, v in arr:
            if v in (None, '?', UNDEF): continue
            if not is_ptr(v) or v == NULL: r.ob(False if v == NULL else None, wh, name, '%s: the result has no storage for %s' % (label, x), tr, '%s-storage-%s' % (name, x)); continue
            r.ob(v[1] not in src and v[1] not in seen, wh, name, '%s: the result shares its %s with %s' % (label, x, 'the source' if v[1] in src else 'another array'), tr, '%s-shared-%s' % (name, x))
            seen.add(v[1])
            ob = st.objs.get(v[1])
            r.ob(None if ob is None else ob[2] != 'freed', wh, name, '%s: the %s of the result is freed' % (label, x), tr, '%s-dead-%s' % (name, x))
            if v[2] != 0: r.ob(False if is_int(v[2]) else None, wh, name, '%s: the %s of the result does not start its block' % (label, x), tr, '%s-inner-%s' % (name, x))
            z = I_size(st, v[1])
            need = mul(f['count'], 4) if kind == 'POLYGON' and is_num(f['count']) else mul(f['width'], f['height']) if kind == 'MASK' and is_num(f['width']) and is_num(f['height']) else None
            if z is not None and need is not None:
                d = ladd(lin(need), lin(z), -1); q = lconst(d)
                r.ob(q <= 0 if q is not None else None, wh, name, '%s: %s of the result has %s bytes, %s are needed' % (label, x, show(lin(z)), show(lin(need))), tr, '%s-size-%s' % (name, x))
        return f
    def I_size(st, o):
        ob = st.objs.get(o); return ob[1] if ob and is_num(ob[1]) else None
    S = shapes(tier)
    FLAGS = (0, c.C.get('REGION_LEGACY_RASTERIZATION', 1))
    for sh in S:
        nm = sh.name()
        own = {REG} | ({XS, YS} if sh.kind == 'POLYGON' else {PX} if sh.kind == 'MASK' else set())
        # kind and encoding
        st = c.state(); o = place(P, st, sh, K=K)
        _, I, outs = c.run('trax_region_get_type', st, [('p', o, 0)], nm)
        for s2, v in outs: r.ob(v == c.PUB[sh.kind] if is_int(v) else None, c.wh('trax_region_get_type'), 'trax_region_get_type', 'the kind of a %s is %s' % (nm, T.show(v)), show_trace(s2.notes(4)), 'get-type-' + sh.kind)
        st = c.state(); o = place(P, st, sh, K=K)
        cc, I, outs = c.run('trax_region_encode', st, [('p', o, 0)], nm)
        for s2, v in outs: r.ob(True if is_ptr(v) else False if v == NULL else None, c.wh('trax_region_encode'), 'trax_region_encode', 'encoding a %s gives no text' % nm, show_trace(s2.notes(4)), 'encode-' + sh.kind)
        # releasing
        st = c.state(); o = place(P, st, sh, K=K); st.mem[VAR] = {0: (('p', o, 0), 8)}
        cc, I, outs = c.run('trax_region_release', st, [('p', VAR, 0)], nm)
        for s2, v in outs:
            for x in sorted(own, key=repr):
                r.ob(s2.objs.get(x, ('', 0, 'freed'))[2] == 'freed', c.wh('trax_region_release'), 'trax_region_release', 'releasing a %s does not free its %s' % (nm, x[1]), show_trace(s2.notes(4)), 'release-%s-%s' % (sh.kind, x[1]))
            q = (s2.mem.get(VAR) or {}).get(0)
            r.ob(q is not None and q[0] in (NULL, 0), c.wh('trax_region_release'), 'trax_region_release', 'releasing a %s leaves the pointer' % nm, (), 'release-pointer')
        # clones and conversions
        for target in (None,) + KINDS:
            for fl in FLAGS if c.flagvar() else (None,):
                st = c.state(); o = place(P, st, sh, K=K)
                name = 'trax_region_convert' if target else 'trax_region_clone'
                label = '%s of a %s%s' % ('conversion to ' + target if target else 'clone', nm, ' (legacy)' if fl else '')
                cc, I, outs = c.run(name, st, [('p', o, 0)] + ([c.PUB[target]] if target else []), label, flags=fl)
                wh = c.wh(name)
                must = target is None or target == sh.kind or target == 'SPECIAL'
                some = must
                for s2, v in outs:
                    tr = show_trace(s2.notes(8))
                    k0, f0 = c.fields(s2, o)
                    st0 = c.state(); place(P, st0, sh, K=K)
                    same = s2.mem.get(o) == st0.mem.get(o) and all(s2.mem.get(x) == st0.mem.get(x) for x in own)
                    r.ob(same, wh, name, '%s: the source is changed' % label, tr, name + '-source')
                    for x in own: r.ob(s2.objs[x][2] == 'live', wh, name, '%s: the %s of the source is freed' % (label, x[1]), tr, name + '-source-freed')
                    if v == NULL:
                        if must: r.ob(False, wh, name, '%s: there is no result' % label, tr, '%s-none-%s-%s' % (name, sh.kind, target))
                        else: r.ob(True, wh, name, '')
                        for x, ob in s2.objs.items():
                            if ob[0] == 'heap' and x not in own: r.ob(ob[2] == 'freed', wh, name, '%s: no result, but memory allocated at %s is kept' % (label, ob[3]), tr, name + '-leak')
                        continue
                    if not is_ptr(v) or v[2] != 0: r.ob(None, wh, name, '%s: result' % label); continue
                    r.ob(v[1] != o, wh, name, '%s: the result is the source itself' % label, tr, name + '-self')
                    kind = target or sh.kind
                    f = complete(s2, v[1], kind, wh, name, label, own, tr)
                    if f is None: continue
                    # storage: every element set
                    if kind == 'POLYGON' and is_int(f['count']) and 0 <= f['count'] <= 16:
                        for x in ('x', 'y'):
                            for k, e in enumerate(c.array(s2, f[x], f['count'], 4) or []): r.ob(None if e == '?' else e is not None and e != UNDEF, wh, name, '%s: %s of point %d is not set' % (label, x, k), tr, '%s-unset-points' % name)
                    if kind == 'MASK' and is_int(f['width']) and is_int(f['height']) and f['width'] * f['height'] <= 16:
                        for k, e in enumerate(c.array(s2, f['data'], f['width'] * f['height'], 1) or []): r.ob(None if e == '?' else e is not None and e != UNDEF, wh, name, '%s: pixel %d is not set' % (label, k), tr, '%s-unset-pixels' % name)
                    if kind == 'MASK' and is_ptr(f['data']) and not (s2.mem.get(f['data'][1])): r.ob(False, wh, name, '%s: the pixels are not set' % label, tr, '%s-unset-pixels' % name)
                    if kind != sh.kind:
                        if kind == 'SPECIAL' : r.ob(True, wh, name, '')
                        continue
                    # same kind: equal contents
                    for x, a in f0.items():
                        b = f[x]
                        if is_ptr(a):
                            n, z = (sh.n, 4) if kind == 'POLYGON' else (sh.w * sh.h, 1)
                            u, w = c.array(s2, a, n, z), c.array(s2, b, n, z)
                            for k in range(n):
                                if w is None: continue
                                e = equal(w[k], u[k]); r.ob(e, wh, name, '%s: element %d of %s is %s' % (label, k, x, show(lin(w[k])) if w[k] not in (None, '?', UNDEF) else 'unknown'), tr, '%s-content-%s' % (name, x))
                        elif b is not None: r.ob(equal(b, a), wh, name, '%s: %s is %s' % (label, x, show(lin(b)) if b not in ('?', UNDEF) else 'unknown'), tr, '%s-content-%s' % (name, x))
        # bounds, point test, drawing, overlap: nothing of another kind is read
        for fl in FLAGS if c.flagvar() else (None,):
            st = c.state(); o = place(P, st, sh, K=K)
            cc, I, outs = c.run('trax_region_bounds', st, [('p', o, 0)], nm, flags=fl)
            for s2, v in outs:
                b = flat(v)
                for k, n in enumerate(bounds_names(P)): r.ob(None if not b else b[k] is not None and b[k] != UNDEF, c.wh('trax_region_bounds'), 'trax_region_bounds', 'bounds of a %s: %s is not set' % (nm, n), show_trace(s2.notes(4)), 'bounds-unset')
            if sh.kind != 'POLYGON' or sh.n < 3:
                st = c.state(); o = place(P, st, sh, K=K); buf = ('heap', 'picture', 0); st.objs[buf] = ('heap', 6, 'live', 'picture'); st.mem[buf] = {'*': True}; st.roots = (st.roots[0] | {buf},)
                c.run('region_get_mask_offset', st, [('p', o, 0), ('p', buf, 0), 0, 0, 3, 2], nm, public=False, flags=fl)
        if sh.kind != 'POLYGON' or sh.n < 3:
            st = c.state(); o = place(P, st, sh, K=K)
            cc, I, outs = c.run('trax_region_contains', st, [('p', o, 0), env('point x'), env('point y')], nm)
            if sh.kind == 'SPECIAL':
                for s2, v in outs: r.ob(v == 0 if is_int(v) else None, c.wh('trax_region_contains'), 'trax_region_contains', 'a special region contains a point', (), 'contains-special')
    # creation and accessors
    X = [env('given %s' % n) for n in ('x', 'y', 'width', 'height')]
    def made(name, args, kind, want):
        st = c.state()
        cc, I, outs = c.run(name, st, args, 'new region')
        for s2, v in outs:
            if not is_ptr(v) or v == NULL: r.ob(None, c.wh(name), name, 'result'); continue
            f = complete(s2, v[1], kind, c.wh(name), name, 'new ' + kind, set(), ())
            for x, a in want.items():
                if f: r.ob(equal(f[x], a), c.wh(name), name, 'a new %s has %s = %s' % (kind, x, show(lin(f[x])) if f[x] not in (None, '?', UNDEF) else 'unknown'), show_trace(s2.notes(4)), '%s-%s' % (name, x))
    made('trax_region_create_special', [atom_int(State(), 'i given code', -100, 100)], 'SPECIAL', {'special': env('i given code')})
    made('trax_region_create_rectangle', X, 'RECTANGLE', dict(zip(('x', 'y', 'width', 'height'), X)))
    made('trax_region_create_polygon', [4], 'POLYGON', {'count': 4})
    made('trax_region_create_mask', [env('i given x'), env('i given y'), 3, 2], 'MASK', {'x': env('i given x'), 'y': env('i given y'), 'width': 3, 'height': 2})
    def setter(name, sh, args, want):
        st = c.state(); o = place(P, st, sh, K=K)
        cc, I, outs = c.run(name, st, [('p', o, 0)] + args, sh.name())
        for s2, v in outs:
            k, f = c.fields(s2, o)
            r.ob(k == sh.kind, c.wh(name), name, 'the kind is changed to %s' % k, (), name + '-kind')
            w = want(f, s2)
            for x, (a, b) in w.items(): r.ob(equal(a, b), c.wh(name), name, '%s: %s is %s' % (name, x, show(lin(a)) if a not in (None, '?', UNDEF) else 'unknown'), show_trace(s2.notes(4)), '%s-%s' % (name, x))
    setter('trax_region_set_special', Shape('SPECIAL'), [env('i given code')], lambda f, s2: {'special': (f['special'], env('i given code'))})
    setter('trax_region_set_rectangle', Shape('RECTANGLE'), X, lambda f, s2: {n: (f[n], x) for n, x in zip(('x', 'y', 'width', 'height'), X)})
    for i in range(3):
        def want(f, s2):
            xs, ys = c.array(s2, f['x'], 3, 4), c.array(s2, f['y'], 3, 4)
            return dict([('x of point %d' % k, (xs[k], X[0] if k == i else env('x%d' % k))) for k in range(3)] + [('y of point %d' % k, (ys[k], X[1] if k == i else env('y%d' % k))) for k in range(3)])
        setter('trax_region_set_polygon_point', Shape('POLYGON', n=3), [i, X[0], X[1]], want)
    def getter(name, sh, args, want, ret=None):
        st = c.state(); o = place(P, st, sh, K=K)
        n = len(want); outv = [('p', VAR, 8 * k) for k in range(n)]
        cc, I, outs = c.run(name, st, [('p', o, 0)] + args + outv, sh.name())
        for s2, v in outs:
            for k, (x, b) in enumerate(want):
                a = (s2.mem.get(VAR) or {}).get(8 * k); a = a[0] if a else None
                r.ob(equal(a, b), c.wh(name), name, '%s: %s is %s' % (name, x, show(lin(a)) if a not in (None, '?', UNDEF) else 'not set'), show_trace(s2.notes(4)), '%s-%s' % (name, x))
            if ret is not None: r.ob(equal(v, ret), c.wh(name), name, '%s gives %s' % (name, show(lin(v)) if v not in (None, UNDEF) else '?'), show_trace(s2.notes(4)), name + '-result')
    getter('trax_region_get_special', Shape('SPECIAL'), [], [], env('i code'))
    getter('trax_region_get_rectangle', Shape('RECTANGLE'), [], [(n, env('rectangle ' + n)) for n in ('x', 'y', 'width', 'height')])
    getter('trax_region_get_polygon_count', Shape('POLYGON', n=3), [], [], 3)
    for i in range(3): getter('trax_region_get_polygon_point', Shape('POLYGON', n=3), [i], [('x', env('x%d' % i)), ('y', env('y%d' % i))])
    getter('trax_region_get_mask_header', Shape('MASK', w=3, h=2), [], [('x', env('i mask x')), ('y', env('i mask y')), ('width', 3), ('height', 2)])
    for row in (0, 1):
        for name in ('trax_region_get_mask_row', 'trax_region_write_mask_row'): getter(name, Shape('MASK', w=3, h=2), [row], [], ('p', PX, 3 * row))
    r.coverage = {'operations': c.cov, 'shapes': [x.name() for x in S]}

def flat(v):
    if v.__class__ is tuple and v and v[0] == 'agg':
        out = []
        for k, x in v[1]: out += flat(x) if x.__class__ is tuple and x and x[0] == 'agg' else [x]
        return out
    return None
def bounds_names(P):
    m = sorted(P.didx['trax_bounds']['members'], key=lambda m: m[1]); return [x[0] for x in m]
def equal(a, b):
    if a is None or a == UNDEF: return False
    if a == '?': return None
    if is_ptr(b): return a == b if is_ptr(a) else None
    if is_ptr(a): return None
    d = ladd(lin(a), lin(b), -1)
    if not d: return True
    return False if known(d) else None

# ------------------------------------------------------------------------------------------------ D06
def d06(c, tier):
    P, r, K = c.P, c.r, c.K
    FLAGS = (0, c.C.get('REGION_LEGACY_RASTERIZATION', 1)) if c.flagvar() else (None,)
    names = bounds_names(P)
    P1 = [Shape('POLYGON', n=n) for n in (1, 2, 3)]
    M1 = [Shape('MASK', w=w, h=h) for w, h in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3))] + ([Shape('MASK', w=3, h=2), Shape('MASK', w=2, h=3), Shape('MASK', w=4, h=2), Shape('MASK', w=3, h=3)] if tier == 'thorough' else [Shape('MASK', w=3, h=2)])
    one = {(): 1}
    def ext(st, sh, side, add_one=False):
        """[(world, expected form)] for an extreme: side 'left', 'right', 'top', 'bottom'"""
        hi = side in ('right', 'bottom'); ax = 'x' if side in ('left', 'right') else 'y'
        out = []
        if sh.kind == 'POLYGON':
            f = st.mon.get('ord', frozenset())
            for k in range(sh.n):
                more = set()
                for j in range(sh.n):
                    if j != k:
                        d = ladd({('env', '%s%d' % (ax, k)): 1}, {('env', '%s%d' % (ax, j)): 1}, -1)
                        more.add((canon(lscale(d, -1) if hi else d), True))
                if consistent(f, more): out.append((frozenset(more), {('env', '%s%d' % (ax, k)): 1}))
            return out
        # masks: which pixels are set on this path
        val = []
        for k in range(sh.w * sh.h):
            a = env('i pixel %d' % k); val.append(eq(st, a, 0))
        idx = [k % sh.w if ax == 'x' else k // sh.w for k in range(sh.w * sh.h)]
        sure = [i for i, v in zip(idx, val) if v is False]; maybe = [i for i, v in zip(idx, val) if v is None]
        pick = max if hi else min
        cand = set()
        if sure:
            cand.add(pick(sure))
            for m in maybe: cand.add(pick(sure + [m]))
        else:
            for m in maybe: cand.add(m)
        return [(frozenset(), {('env', 'i mask ' + ax): 1, **({(): c_} if c_ else {})}) for c_ in sorted(cand)]
    def judge(st, sh, l, side, wh, name, label, tr, plus=0):
        """l is the coordinate of the side (plus: pixels added on the far side)"""
        W = ext(st, sh, side)
        if not W: return
        txt = show(l)
        for more, want in W:
            w = ladd(want, {(): plus}) if plus else want
            d = ladd(l, w, -1)
            fm = st.mon.get('ord', frozenset()) | more
            if not d or (holds(fm, d, False) is True and holds(fm, lscale(d, -1), False) is True): r.ob(True, wh, name, ''); continue
            if known(l) and not any(x != () and x[0] != 'env' for x in l) and not st.mon.get('unk'):
                r.ob(False, wh, name, '%s: %s is %s, the points reach to %s' % (label, side, txt, show(w)), tr, '%s-%s-%s' % (name, sh.kind.lower(), side))
            else: r.ob(None, wh, name, '%s: %s is %s' % (label, side, txt))
    def pure(l, dim, wh, name, label, what, tr, key):
        if l is None: return
        ds = dims(l)
        r.ob(False if ds - {dim} and not any(x != () and x[0] == 'nonlin' for x in l) else True, wh, name, '%s: %s depends on %s coordinates (%s)' % (label, what, 'vertical' if dim == 'h' else 'horizontal', show(l)), tr, key)
    SIDE = {'left': 'h', 'right': 'h', 'top': 'v', 'bottom': 'v'}
    def value(x): return None if x in (None, UNDEF, '?') else lin(x)
    # bounds
    for fl in FLAGS:
        for sh in P1 + M1 + [Shape('RECTANGLE')]:
            label = 'bounds of a %s' % sh.name()
            st = c.state(); o = place(P, st, sh, K=K)
            cc, I, outs = c.run('trax_region_bounds', st, [('p', o, 0)], sh.name(), flags=fl)
            wh = c.wh('trax_region_bounds'); nm = 'trax_region_bounds'
            for s2, v in outs:
                b = flat(v); tr = show_trace(s2.notes(8))
                if not b: r.ob(None, wh, nm, label); continue
                B = {n: value(x) for n, x in zip(names, b)}
                for n in names:
                    if B[n] is None: r.ob(None, wh, nm, label); continue
                    if sh.kind == 'RECTANGLE':
                        ax = 'x' if SIDE[n] == 'h' else 'y'
                        near = {('env', 'rectangle ' + ax): 1}
                        if n in ('left', 'top'): d = ladd(B[n], near, -1); okv = not d
                        else: d = ladd(ladd(B[n], near, -1), {('env', 'rectangle ' + ('width' if ax == 'x' else 'height')): 1}, -1); okv = lconst(d) in (0, -1)
                        r.ob(True if okv else False if known(d) else None, wh, nm, '%s: %s is %s' % (label, n, show(B[n])), tr, nm + '-rectangle-' + n)
                    else: judge(s2, sh, B[n], n, wh, nm, label, tr)
                    pure(B[n], SIDE[n], wh, nm, label, n, tr, nm + '-mixed-' + n)
    # conversions to rectangles
    def box(f): 
        x, y, w, h = [value(f[k]) for k in ('x', 'y', 'width', 'height')]
        return None if None in (x, y, w, h) else {'left': x, 'top': y, 'right': ladd(x, w), 'bottom': ladd(y, h), 'width': w, 'height': h}
    def conv(sh, target, fl):
        st = c.state(); o = place(P, st, sh, K=K)
        label = 'conversion of a %s to %s%s' % (sh.name(), target, ' (legacy)' if fl else '')
        cc, I, outs = c.run('trax_region_convert', st, [('p', o, 0), c.PUB[target]], label, flags=fl)
        for s2, v in outs:
            if not is_ptr(v) or v == NULL: continue
            k, f = c.fields(s2, v[1])
            if k != target: r.ob(None, c.wh('trax_region_convert'), 'trax_region_convert', label); continue
            yield s2, f, label, show_trace(s2.notes(8))
    nm = 'trax_region_convert'; wh = c.wh(nm)
    for fl in FLAGS:
        for sh in P1 + M1:
            for s2, f, label, tr in conv(sh, 'RECTANGLE', fl):
                if sh.kind == 'MASK' and all(eq(s2, env('i pixel %d' % k), 0) is True for k in range(sh.w * sh.h)): continue
                b = box(f)
                if b is None: r.ob(None, wh, nm, label); continue
                for n in ('left', 'top'): judge(s2, sh, b[n], n, wh, nm, label, tr)
                for n in ('right', 'bottom'): judge(s2, sh, b[n], n, wh, nm, label, tr, 1 if sh.kind == 'MASK' else 0)
                for n, q in (('left', 'h'), ('width', 'h'), ('top', 'v'), ('height', 'v')): pure(b[n], q, wh, nm, label, n, tr, nm + '-mixed-' + n)
        # to polygons
        for sh in M1 + [Shape('RECTANGLE')]:
            for s2, f, label, tr in conv(sh, 'POLYGON', fl):
                n = f['count']
                if not is_int(n) or not 0 < n <= 8: r.ob(None, wh, nm, label); continue
                if sh.kind == 'MASK' and all(eq(s2, env('i pixel %d' % k), 0) is True for k in range(sh.w * sh.h)): continue
                xs, ys = [value(x) for x in c.array(s2, f['x'], n, 4) or [None]], [value(x) for x in c.array(s2, f['y'], n, 4) or [None]]
                if None in xs or None in ys: r.ob(None, wh, nm, label); continue
                for l in xs: pure(l, 'h', wh, nm, label, 'x', tr, nm + '-mixed-x')
                for l in ys: pure(l, 'v', wh, nm, label, 'y', tr, nm + '-mixed-y')
                pts = {(canon(x), canon(y)) for x, y in zip(xs, ys)}
                if sh.kind == 'RECTANGLE':
                    X, Y = {('env', 'rectangle x'): 1}, {('env', 'rectangle y'): 1}; Wd, Ht = {('env', 'rectangle width'): 1}, {('env', 'rectangle height'): 1}
                    okv = any(pts == {(canon(a), canon(b)) for a in (X, ladd(ladd(X, Wd), {(): k} if k else {})) for b in (Y, ladd(ladd(Y, Ht), {(): k} if k else {}))} for k in (0, -1))
                    r.ob(True if okv else False if all(known(x) for x in xs + ys) else None, wh, nm, '%s: corners %s' % (label, ', '.join('(%s, %s)' % (show(x), show(y)) for x, y in zip(xs, ys))), tr, nm + '-corners-rectangle')
                    # neighbours share a side
                else:
                    W = {q: ext(s2, sh, q) for q in SIDE}
                    if any(len(x) != 1 for x in W.values()): r.ob(None, wh, nm, label); continue
                    want = {(canon(W[a][0][1]), canon(W[b][0][1])) for a in ('left', 'right') for b in ('top', 'bottom')}
                    r.ob(True if pts == want else False if all(known(x) for x in xs + ys) else None, wh, nm, '%s: corners %s' % (label, ', '.join('(%s, %s)' % (show(x), show(y)) for x, y in zip(xs, ys))), tr, nm + '-corners-mask')
                for k in range(n):
                    a, b = k, (k + 1) % n
                    if n == 4: r.ob(xs[a] == xs[b] or ys[a] == ys[b], wh, nm, '%s: the corners are not in order' % label, tr, nm + '-order')
        # to masks
        for sh in P1 + [Shape('RECTANGLE')]:
            for s2, f, label, tr in conv(sh, 'MASK', fl):
                M = {k: value(f[k]) for k in ('x', 'y', 'width', 'height')}
                if None in M.values(): r.ob(None, wh, nm, label); continue
                for n, q in (('x', 'h'), ('width', 'h'), ('y', 'v'), ('height', 'v')): pure(M[n], q, wh, nm, label, n, tr, nm + '-mixed-' + n)
                if sh.kind == 'RECTANGLE':
                    for n in ('x', 'y', 'width', 'height'):
                        base_ = {('env', 'rectangle ' + n): 1}
                        r.ob(True if any(M[n] == fun(g, base_) for g in ('trunc', 'floor', 'round', 'ceil')) else False if known(M[n]) and envs(M[n]) != {'rectangle ' + n} else None, wh, nm, '%s: %s is %s' % (label, n, show(M[n])), tr, nm + '-rectangle-mask-' + n)
                    continue
                for ax, near, far, size in (('x', 'left', 'right', 'width'), ('y', 'top', 'bottom', 'height')):
                    for more, want in ext(s2, sh, near):
                        w = fun('floor', want); d = ladd(M[ax], w, -1)
                        r.ob(True if not d else False if known(M[ax]) and not huge(M[ax]) and not s2.mon.get('unk') else None, wh, nm, '%s: the mask starts at %s, the points at %s' % (label, show(M[ax]), show(want)), tr, nm + '-mask-' + ax)
                        for more2, wf in ext(s2, sh, far):
                            e = ladd(M[ax], M[size]); d = ladd(ladd(e, fun('ceil', wf), -1), {(): -1})
                            if consistent(s2.mon.get('ord', frozenset()), more | more2): r.ob(True if not d else False if known(e) and not huge(e) and not s2.mon.get('unk') else None, wh, nm, '%s: the mask ends at %s, the points at %s' % (label, show(e), show(wf)), tr, nm + '-mask-' + size)
                fs = s2.mon.get('fill', ())
                if len(fs) != 1: r.inconclusive.append('%s: drawing of the polygon' % label); continue
                pts, buf, w, h, fw, ff = fs[0]
                r.ob(True if is_ptr(buf) and buf == f['data'] else None, fw, ff, '%s: drawn elsewhere' % label)
                for a, b, q in ((w, 'width', 'width'), (h, 'height', 'height')):
                    d = ladd(lin(a), M[b], -1); r.ob(True if not d else False if known(lin(a)) and known(M[b]) else None, fw, ff, '%s: drawn with %s %s instead of %s' % (label, q, show(lin(a)), show(M[b])), tr, ff + '-draw-' + q)
                for k, (px, py) in enumerate(pts):
                    for v, ax in ((px, 'x'), (py, 'y')):
                        if value(v) is None: r.ob(None, fw, ff, label); continue
                        d = ladd(ladd(value(v), {('env', '%s%d' % (ax, k)): 1}, -1), M[ax])
                        r.ob(True if not d else False if known(value(v)) and known(M[ax]) else None, fw, ff, '%s: %s of point %d is drawn at %s in a mask that starts at %s' % (label, ax, k, show(value(v)), show(M[ax])), tr, ff + '-draw-' + ax)
    # copying masks into windows
    nm = 'region_get_mask_offset'
    if c.fn(nm):
        wh = c.wh(nm)
        for mw, mh, W, H in ((2, 2, 3, 2), (3, 1, 2, 2), (1, 3, 2, 2)) if tier == 'quick' else ((2, 2, 3, 2), (3, 1, 2, 2), (1, 3, 2, 2), (3, 2, 2, 3), (2, 3, 4, 2)):
            for mx, my in ((0, 0), (-2, 1), (1, -2)):
                for dx in (-mw, -1, 0, 1, W):
                    for dy in (-mh, -1, 0, 1, H):
                        sh = Shape('MASK', w=mw, h=mh, x=mx, y=my); st = c.state(); o = place(P, st, sh, K=K)
                        buf = ('heap', 'picture', 0); st.objs[buf] = ('heap', W * H, 'live', 'picture'); st.mem[buf] = {'*': True}; st.roots = (st.roots[0] | {buf},)
                        x, y = mx - dx, my - dy
                        cc, I, outs = c.run(nm, st, [('p', o, 0), ('p', buf, 0), x, y, W, H], sh.name(), public=False)
                        if cc is None: continue
                        label = 'a mask of %dx%d at (%d, %d) drawn in a window of %dx%d at (%d, %d)' % (mw, mh, mx, my, W, H, x, y)
                        for k_ in cc.reports.values():
                            if k_.kind == 'oob': r.ob(False, k_.where, k_.func, '%s: %s' % (label, k_.what), k_.trace, nm + '-oob')
                        for s2, v in outs:
                            got = c.array(s2, ('p', buf, 0), W * H, 1)
                            for i in range(H):
                                for j in range(W):
                                    gj, gi = j + x - mx, i + y - my
                                    want = env('i pixel %d' % (gj + gi * mw)) if 0 <= gj < mw and 0 <= gi < mh else 0
                                    g = got[j + i * W]
                                    r.ob(None if g in ('?', UNDEF, None) else True if eq(s2, g, want) is True else equal(g, want), wh, nm, '%s: pixel (%d, %d) is %s' % (label, j, i, show(lin(g)) if g not in ('?', UNDEF, None) else 'not set'), show_trace(s2.notes(4)), nm + '-pixel')
    else: r.inconclusive.append(nm + ' is not there')
    # the point test of a mask reads the pixel under the point
    nm = 'trax_region_contains'; wh = c.wh(nm)
    PXN, PYN = {('env', 'point x'): 1}, {('env', 'point y'): 1}; DIM['point x'] = 'h'; DIM['point y'] = 'v'
    for mw, mh, mx, my in ((3, 2, 0, 0), (2, 3, -4, 1), (3, 2, 2, -5), (2, 2, -1, -1)):
        sh = Shape('MASK', w=mw, h=mh, x=mx, y=my); st = c.state(); o = place(P, st, sh, K=K)
        cc, I, outs = c.run(nm, st, [('p', o, 0), env('point x'), env('point y')], sh.name())
        for s2, v in outs:
            rd = s2.mon.get('reads', ())
            f = s2.mon.get('ord', frozenset())
            IN = ((ladd({(): mx}, PXN, -1), False), (ladd({(): my}, PYN, -1), False), (ladd(PXN, {(): mx + mw}, -1), True), (ladd(PYN, {(): my + mh}, -1), True))
            inside = all(holds(f, d, st_) is True for d, st_ in IN)
            OUT = ((ladd(PXN, {(): mx}, -1), True), (ladd(PYN, {(): my}, -1), True), (ladd({(): mx + mw}, PXN, -1), False), (ladd({(): my + mh}, PYN, -1), False))
            outside = any(holds(f, d, st_) is True for d, st_ in OUT); mayout = any(consistent(f, {(canon(d), st_)}) for d, st_ in OUT); mayin = consistent(f, {(canon(d), st_) for d, st_ in IN}); unk = s2.mon.get('unk')
            tr = show_trace(s2.notes(8))
            label = 'point in a mask of %dx%d pixels at (%d, %d)' % (mw, mh, mx, my)
            if not rd:
                r.ob(True if outside else None if unk or not is_int(v) or not mayin else False, wh, nm, '%s: the pixels are not looked at for a point inside' % label, tr, nm + '-noread')
                if outside: r.ob(v == 0 if is_int(v) else None, wh, nm, '%s: a point outside is in the region' % label, tr, nm + '-outside')
                continue
            r.ob(True if inside else False if mayout and not unk else None, wh, nm, '%s: pixels are read for a point outside' % label, tr, nm + '-outside-read')
            for off in rd:
                l = lin(off); want = ladd(ladd(ladd(fun('floor', PXN), {(): mx}, -1), fun('floor', PYN), mw), {(): my * mw}, -1)
                d = ladd(l, want, -1)
                okv = not d
                if not okv:
                    # truncation agrees with the pixel grid where no coordinate is negative
                    l2 = {}
                    for x_, c_ in l.items():
                        y_ = x_
                        if x_ != () and x_[0] == 'trunc':
                            a = dict(x_[1])
                            if (a == PXN and mx >= 0) or (a == PYN and my >= 0): y_ = ('floor', x_[1])
                        l2[y_] = l2.get(y_, 0) + c_
                    okv = not ladd(l2, want, -1)
                r.ob(True if okv else False if known(l) else None, wh, nm, '%s: the pixel read is %s, the point is at %s' % (label, show(l), show(want)), tr, nm + '-pixel')
    for s2, v in rect_contains(c): pass
    overlap_window(c)
    r.coverage = {'operations': c.cov, 'shapes': [x.name() for x in P1 + M1]}
    r.assumptions = ['coordinates are numbers (no NaN) smaller than FLT_MAX and arithmetic on them is exact', 'sizes computed from coordinates fit an int', 'floor, ceil and round are those of the C library', 'a mask without pixels has no bounds']

def rect_contains(c):
    """a point is in a rectangle exactly when it is between its sides"""
    P, r = c.P, c.r
    nm = 'trax_region_contains'; wh = c.wh(nm)
    sh = Shape('RECTANGLE'); st = c.state(); o = place(P, st, sh, K=c.K)
    cc, I, outs = c.run(nm, st, [('p', o, 0), env('point x'), env('point y')], sh.name())
    for s2, v in outs:
        f = s2.mon.get('ord', frozenset())
        for d, st_ in f:
            l = dict(d)
            if known(l) and len(dims(l)) > 1: r.ob(False, wh, nm, 'point in a rectangle: %s is compared with 0' % show(l), show_trace(s2.notes(6)), nm + '-rectangle-mixed')
            else: r.ob(True, wh, nm, '')
    return outs

def overlap_window(c):
    """the window of an overlap reaches the comparison unmixed"""
    P, r = c.P, c.r
    nm = 'trax_region_overlap'
    if not c.fn('region_compute_overlap'): r.inconclusive.append('region_compute_overlap is not there'); return
    st = c.state(); o = place(P, st, Shape('RECTANGLE'), K=c.K); q = place(P, st, Shape('RECTANGLE'), ' (second)', c.K)
    names = bounds_names(P); B = {n: env('window ' + n) for n in names}
    f = c.fn(nm)
    if not f: raise build.Broken('%s is not defined' % nm)
    got = []
    cc = Reg(P, nm)
    def model(I, st, fr, ins, a): got.append((a, fr.f.where(ins), fr.f.src)); return [(st, ('agg', ((0, ('agg', ((0, env('overlap')), (1, env('only 1'))))), (1, env('only 2')))))]
    cc.models['region_compute_overlap'] = model
    I = Interp(P, cc)
    try: outs = I.call_function(f[0], st, [('p', o, 0), ('p', q, 0), ('agg', ((0, B[names[0]]), (1, B[names[1]]))), ('agg', ((0, B[names[2]]), (1, B[names[3]])))], 'API', 0, ())
    except Budget: r.inconclusive.append(nm); return
    rn = [m[0] for m in sorted(P.didx['region_bounds']['members'], key=lambda m: m[1])]
    for a, wh, fu in got:
        r.ob(a[0] == ('p', o, 0) and a[1] == ('p', q, 0), wh, fu, 'the regions compared are not those given', (), nm + '-regions')
        b = flat(('agg', tuple(enumerate(a[2:]))))
        if not b or len(b) != 4: r.ob(None, wh, fu, 'window'); continue
        for n, x in zip(rn, b): r.ob(None if x in (None, UNDEF, '?') else equal(x, B[n]), wh, fu, 'the %s of the window is %s' % (n, show(lin(x)) if x not in (None, UNDEF, '?') else 'not set'), (), nm + '-window-' + n)
    for s2, v, k in outs:
        if k == 'ret' and got: r.ob(equal(v, env('overlap')) if v not in (None, UNDEF) else None, c.wh(nm), nm, 'the result is %s' % (show(lin(v)) if v not in (None, UNDEF) else '?'), (), nm + '-result')

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    P.field('region_container', 'type')
    r = Result('')
    c = Check(P, r, pid)
    if pid == 'D05':
        r.rule = 'Abstract interpretation of every region operation from a region of each kind whose memory holds exactly what the kind owns. Rule: a result has the kind asked for, is set completely and owns its arrays; equal contents for a result of the same kind; releasing frees exactly what the kind owns; nothing of another kind is read.'
        d05(c, tier)
    else:
        r.rule = 'Abstract interpretation of bounds, conversions, point tests and drawing of masks over linear forms of unknown coordinates; comparisons split paths into zones. Rule: every extreme is that of the points in every world a path leaves open, results of one direction come from coordinates of that direction, and what is drawn or read keeps its position.'
        d06(c, tier)
    return r
if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations[:int(sys.argv[2]) if len(sys.argv) > 2 else 12]: print(v.text())
    for i in sorted(set(r.inconclusive))[:30]: print('?', i)
