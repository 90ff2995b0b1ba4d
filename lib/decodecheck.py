"""M04: decoding a region or image text.  The decoders are interpreted abstractly over families of texts: prefix,
separators and their number are fixed by the family, the numbers between them are classes (any, huge, negative, not a
number, small), the Base64 body is any text of any length.  Every store has to lie inside the block it goes to, no
assertion may be hit, sizes may not overflow, and an object that is returned has to be one the accessors can use."""
import os, sys, time, itertools, multiprocessing
import build, ir, core, absint, libc
import terms as T
from terms import *
from terms_eval import evalc, evala, isnan_of
from core import consts, show_trace
from absint import Interp, State, Budget, UNDEF, NULL, refine, assume_eq, eq, le, bounds
from objects import Life, TXT

OUTP = ('ext', 'result')
BIG = 1 << 31
# classes of numbers: value as an integer (lowest, highest) after conversion, or a constant
CLASSES = {'any': (-BIG, BIG - 1), 'huge': (1 << 20, BIG - 1), 'negative': (-BIG, -1)}

class Text(object):
    """items: strings, ('n', class or int) numbers, ('b',) a Base64 body"""
    def __init__(s, *items):
        s.exact = True      # loops end after a few rounds
        s.items = items; s.bytes = b''; s.numbers = {}; s.body = None
        for x in items:
            if x.__class__ is str: s.bytes += x.encode()
            elif x[0] == 'n':
                s.numbers[len(s.bytes)] = (x[1], len(s.bytes) + 1); s.bytes += b'7'
            elif x[0] == 'b': s.body = len(s.bytes); s.bytes += b'QUJD'
    def name(s): return repr(''.join(x if x.__class__ is str else '<%s>' % x[1] if x[0] == 'n' else '<Base64>' for x in s.items))

def free_atoms(st, exprs, isfree):
    """(inputs, relevant constraints) or None when something else than inputs decides"""
    A = set()
    for e in exprs: A |= T.atoms_of(e)
    A |= set(x for e in exprs for x in T.deep_of(e))
    cons = []
    ch = True
    while ch:
        ch = False
        for p in st.facts:
            d = T.deep_of(p)
            if d & A and not d <= A: A |= d; ch = True
        for a in st.info:
            d = T.deep_atoms(a)
            if d & A and not d <= A: A |= d; ch = True
    base = set()
    for a in A:
        k = T.atom_key(a)
        if k[0] == 'number' and any(T.atom_key(b)[:2] == ('op', 'fptosi') and a in T.deep_atoms(b) for b in A): pass   # the integer it becomes is what is chosen
        elif isfree(k): base.add(a)
        elif k[0] in ('op', 'cmp', 'bits') or isnan_of(k): pass
        else: return None
    return sorted(base), A
def possible(st, pred, exprs, isfree, rng):
    """can the inputs be such that the path is taken and pred(env) is True?  Some candidate values are tried; a witness or None"""
    r = free_atoms(st, exprs, isfree)
    if r is None or len(r[0]) > 4: return None
    base, A = r
    cand = []
    for a in base:
        lo, hi = absint.atom_bounds(st, a); l2, h2 = rng(a); lo, hi = max(lo, l2), min(hi, h2)
        c = [x for x in (1, 2, 3, 4, 5, 7, 9, 13, 17, 19, 25, 49, 65536, 32768, 46341, 1 << 16, (1 << 31) - 1, 0, -1, -BIG, lo, hi) if lo <= x <= hi]
        cand.append(sorted(set(c), key=lambda x: (abs(x), x)))
    for vals in itertools.product(*cand):
        env = dict(zip(base, vals))
        ok = True
        for a, i in st.info.items():
            if not T.deep_atoms(a) & A: continue
            x = evala(a, env)
            if x is None: ok = None; break
            if x < i[0] or x > i[1] or x in i[2]: ok = False; break
        if ok:
            for p, b in st.facts.items():
                if not T.deep_of(p) & A: continue
                x = evalc(p, env)
                if x is None: ok = None; break
                if x > b: ok = False; break
        if ok and pred(env) is True: return dict((T.show(('P', (((a,), 1),))), v) for a, v in zip(base, vals))
    return None

class Dec(Life):
    part_limit = 400; max_states = 4000; max_heads = 400; steps = 250000
    def __init__(s, P, entry, text):
        Life.__init__(s, P, entry)
        s.text = text; s.part_limit = 400 if text.exact else 10; s.viol = {}; s.obl = [0, 0, 0]
        for n in ('atof', 'strtof', 'strtod', 'strtol', 'strtoul', 'atoi', 'atol', 'strtoll'): s.models[n] = s.number_at
        for n in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp'): s.models[n] = s.compare
    def check(s, ok, I, st, fr, ins, what, where=None):
        s.obl[0 if ok is True else 1 if ok is False else 2] += 1
        if ok is False:
            w = where or fr.f.where(ins)
            s.viol.setdefault((w, what), dict(where=w, func=fr.f.src if fr else s.entry, what=what, trace=show_trace(st.notes()), stack=list(I.callstack[1:])))
        elif ok is None: s.unproved.setdefault((where or fr.f.where(ins), what), '')
    # ---- the numbers of the text
    def isfree(s, k): return k[0] in ('number', 'declen') or (k[0] == 'op' and k[1] == 'fptosi' and T.single_atom(k[2]) is not None and T.atom_key(T.single_atom(k[2]))[0] == 'number') or (k[0] == 'strlen')
    def range(s, a):
        k = T.atom_key(a)
        if k[0] in ('declen', 'strlen'): return (k[0] == 'declen', BIG - 1)
        if k[0] == 'op': k = T.atom_key(T.single_atom(k[2]))
        return CLASSES.get(k[2], (-BIG, BIG - 1))
    def number_at(s, I, st, fr, ins, a):
        nm = ins.d['callee'][1]
        p = I.check_ptr(st, fr, ins, a[0], 'read')
        if p is None: return []
        fl = ins.t in ('float', 'double')
        at = s.text.numbers.get(p[2]) if p[1] == TXT and is_int(p[2]) else None
        if p[1] != TXT or not is_int(p[2]): return libc.m_strtox(I, st, fr, ins, a)
        s.on_access(I, st, fr, ins, p, 1, 'read')
        m = st.mem[TXT].get(p[2])
        end = p[2]
        if at is None or not m or m[0] == 0: v = ('fl', 0.0) if fl else 0
        else:
            end = at[1]; c = at[0]
            if c == 'nan': v = T.A(('notanumber', p[2])) if fl else 0
            elif is_int(c): v = ('fl', float(c)) if fl else c
            else:
                v = T.A(('number', p[2], c))
                t = T.A(('op', 'fptosi', v)) if fl else v
                refine(st, single_atom(t), *CLASSES[c])
        if len(a) > 1 and nm.startswith('strto') and is_ptr(a[1]) and a[1] != NULL: I.setmem(st, a[1][1], a[1][2], ('p', TXT, end), 8)
        return [(st, v)]
    def fcmp(s, I, st, fr, ins, p, a, b):
        x = [single_atom(v) if is_poly(v) else None for v in (a, b)]
        nan = [k is not None and T.atom_key(k)[0] == 'notanumber' for k in x]
        if any(nan): return 1 if p[0] == 'u' and p != 'uno' or p == 'uno' else 0
        if p in ('uno', 'ord') and all(v.__class__ is tuple and v[0] == 'fl' or (k is not None and T.atom_key(k)[0] in ('number', 'op', 'fop')) for v, k in zip((a, b), x)): return int(p == 'ord')
        return None
    # ---- texts whose bytes are known
    def known(s, I, st, p):
        t = libc.cstr(I, st, p)
        if t is not None: return t
        if not is_ptr(p) or not is_int(p[2]): return None
        r = b''; m = st.mem.get(p[1]) or {}; k = p[2]
        while len(r) < 200:
            x = m.get(k)
            if x is None or x.__class__ is not tuple or not is_int(x[0]): return None
            if x[0] == 0: return r
            r += bytes([x[0] & 255]); k += 1
    def compare(s, I, st, fr, ins, a):
        nm = ins.d['callee'][1]
        p = I.check_ptr(st, fr, ins, a[0], 'read'); q = I.check_ptr(st, fr, ins, a[1], 'read')
        if p is None or q is None: return []
        x, y = s.known(I, st, p), s.known(I, st, q)
        if x is None or y is None: return libc.m_strcmp(I, st, fr, ins, a)
        if 'case' in nm: x, y = x.lower(), y.lower()
        if len(a) > 2:
            if not is_int(a[2]): return libc.m_strcmp(I, st, fr, ins, a)
            x, y = x[:a[2]], y[:a[2]]
        return [(st, 0 if x == y else 1 if x > y else -1)]
    # ---- obligations
    def on_access(s, I, st, fr, ins, p, n, k):
        if not is_ptr(p): return
        z = I.obj_size(st, p[1])
        if z is None or not is_num(z) or not is_num(n) or not is_num(p[2]): return
        over = sub(add(p[2], n), z)
        hi = le(st, over, 0); lo = le(st, 0, p[2])
        what = '%s of %s bytes at offset %s of a block of %s bytes' % (k, T.show(n), T.show(p[2]), T.show(z))
        if hi is None:
            w = possible(st, lambda e: (lambda x: None if x is None else x > 0)(evalc(over, e)), (over, z, p[2], n), s.isfree, s.range)
            if w: hi = False; what += ', with ' + ', '.join('%s = %d' % x for x in w.items())
        s.check(False if False in (hi, lo) else None if None in (hi, lo) else True, I, st, fr, ins, what)
    def on_string(s, I, st, fr, ins, p): s.on_access(I, st, fr, ins, p, 1, 'read')
    def on_arith(s, I, st, fr, ins, op, a, b, r):
        if op in ('sdiv', 'udiv', 'srem', 'urem') and is_num(b):
            lo, hi = bounds(st, b)
            if lo > 0 or hi < 0: s.obl[0] += 1
            elif b == 0: s.check(False, I, st, fr, ins, 'a division by zero')
            else:
                w = possible(st, lambda e: (lambda x: None if x is None else x == 0)(evalc(b, e)), (b,), s.isfree, s.range)
                if w: s.check(False, I, st, fr, ins, 'a division by zero, with ' + ', '.join('%s = %d' % x for x in w.items()))
                else: s.check(None, I, st, fr, ins, 'a divisor')
            return
        if op not in ('mul', 'add', 'sub') or not ins.d.get('nsw') or ins.t not in ('i32',) or not is_num(r) or is_int(r): return
        lo, hi = bounds(st, r)
        if lo >= -BIG and hi < BIG: s.obl[0] += 1; return
        if op != 'mul': return
        w = possible(st, lambda e: (lambda x: None if x is None else not -BIG <= x < BIG)(evalc(r, e)), (r,), s.isfree, s.range)
        if w: s.check(False, I, st, fr, ins, 'the product overflows, with ' + ', '.join('%s = %d' % x for x in w.items()))
    def on_assert(s, I, st, fr, ins, e): s.check(False, I, st, fr, ins, 'an assertion is hit: %s' % (e.decode() if isinstance(e, bytes) else e))
    def on_null(s, I, st, fr, ins, p, k): s.check(False, I, st, fr, ins, 'a null pointer is used (%s)' % k)
    def on_freed(s, I, st, fr, ins, p, k): s.check(False, I, st, fr, ins, 'released memory is used (%s)' % k)
    def on_undef(s, I, st, fr, ins, w): s.check(False, I, st, fr, ins, 'a value that was never set is used (%s)' % w)
    def on_badfree(s, I, st, fr, ins, p): s.check(False, I, st, fr, ins, 'something that is not a heap block is released')
    def on_leak(s, I, st, o, w): pass
    # ---- results
    def result_region(s, I, st, o, w):
        P = s.prog; K = dict((n, P.enum_value(n)) for n in ('SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK'))
        m = st.mem.get(o) or {}
        d = P.field('region_container', 'data')[0]
        c = lambda ok, what: s.check(ok, I, st, None, None, what, w)
        get = lambda off: m.get(off, (None,))[0]
        ty = get(P.field('region_container', 'type')[0])
        kind = [n for n, v in K.items() if v == ty]
        if not kind: c(False if is_int(ty) or ty is None or ty == UNDEF else None, 'a region of an unknown kind is returned'); return
        kind = kind[0]
        def block(p, n, what):
            if p is None or p == UNDEF: c(False, '%s are never set' % what); return
            if p == NULL or not is_ptr(p): c(False if p == NULL else None, '%s are missing' % what); return
            if I.obj_status(st, p[1]) == 'freed': c(False, '%s have been released' % what); return
            z = I.obj_size(st, p[1])
            if z is None or not is_num(z) or not is_num(n): c(None, 'size of %s' % what); return
            r = le(st, add(p[2], n), z)
            if r is None and possible(st, lambda e: (lambda x: None if x is None else x > 0)(evalc(sub(add(p[2], n), z), e)), (n, z), s.isfree, s.range): r = False
            c(r, '%s take %s bytes, the block has %s' % (what, T.show(n), T.show(z)))
        if kind == 'POLYGON':
            g = lambda n: get(d + P.field('region_polygon', n)[0])
            n = g('count')
            c(None if n is None or not is_num(n) or le(st, 3, n) is None else le(st, 3, n), 'a polygon of %s points is returned' % (T.show(n) if n is not None else '?'))
            if is_num(n):
                for x in ('x', 'y'): block(g(x), mul(n, 4), 'the points of a polygon')
        if kind == 'MASK':
            g = lambda n: get(d + P.field('region_mask', n)[0])
            W, Hh = g('width'), g('height')
            for n, what in ((W, 'width'), (Hh, 'height')):
                if n is None or n == UNDEF: c(False, 'the %s of a mask is never set' % what); return
                r = le(st, 1, n) if is_num(n) else None
                if r is None and is_num(n) and possible(st, lambda e: (lambda x: None if x is None else x < 1)(evalc(n, e)), (n,), s.isfree, s.range): r = False
                c(r, 'a mask of %s %s is returned' % (what, T.show(n)))
            n = mul(W, Hh) if is_num(W) and is_num(Hh) else None
            if n is not None: block(g('data'), n, 'the pixels of a mask')
    def result_image(s, I, st, o, w):
        P = s.prog; C = consts()
        m = st.mem.get(o) or {}
        c = lambda ok, what: s.check(ok, I, st, None, None, what, w)
        get = lambda n: m.get(P.field('trax_image', n)[0], (None,))[0]
        ty = get('type'); K = dict((n, C['TRAX_IMAGE_' + n]) for n in ('PATH', 'URL', 'MEMORY', 'BUFFER'))
        kind = [n for n, v in K.items() if v == ty]
        if not kind: c(False if is_int(ty) or ty is None or ty == UNDEF else None, 'an image of an unknown kind is returned'); return
        kind = kind[0]; p = get('data')
        if p is None or p == UNDEF or p == NULL: c(False, 'an image without contents is returned'); return
        z = I.obj_size(st, p[1]) if is_ptr(p) else None
        c(I.obj_status(st, p[1]) != 'freed', 'the contents of the image have been released') if is_ptr(p) else None
        W, Hh, F = get('width'), get('height'), get('format')
        if kind in ('MEMORY', 'BUFFER'):
            for x, what in ((W, 'width'), (F, 'format')): c(not (x is None or x == UNDEF), 'the %s of an image is never set' % what)
            if not is_num(W): return
            n = W
            if kind == 'MEMORY':
                if not is_num(Hh): c(False if Hh in (None, UNDEF) else None, 'the height of an image is never set'); return
                for x, what in ((W, 'width'), (Hh, 'height')):
                    r = le(st, 1, x)
                    if r is None and possible(st, lambda e: (lambda y: None if y is None else y < 1)(evalc(x, e)), (x,), s.isfree, s.range): r = False
                    c(r, 'an image of %s %s is returned' % (what, T.show(x)))
                bpp = {C.get('TRAX_IMAGE_MEMORY_RGB'): 3, C.get('TRAX_IMAGE_MEMORY_GRAY8'): 1, C.get('TRAX_IMAGE_MEMORY_GRAY16'): 2}.get(F)
                if bpp is None: c(False if is_int(F) else None, 'an image of an unknown format is returned'); return
                n = mul(mul(W, Hh), bpp)
            elif F not in (C.get('TRAX_IMAGE_BUFFER_JPEG'), C.get('TRAX_IMAGE_BUFFER_PNG')): c(False if is_int(F) else None, 'encoded data of an unknown format is returned')
            if is_num(z) if z is not None else False:
                r = le(st, n, z)
                if r is None: r = s.divided(st, n, z)
                if r is None:
                    wt = possible(st, lambda e: (lambda y: None if y is None else y > 0)(evalc(sub(n, z), e)), (n, z), s.isfree, s.range)
                    if wt: r = False
                c(r, 'the contents take %s bytes, the block has %s' % (T.show(n), T.show(z)))
    def divided(s, st, n, z):
        """n <= z because z (or a part of it) was divided without remainder"""
        for a in list(st.info):
            k = T.atom_key(a)
            if k[0] == 'op' and k[1] in ('srem', 'urem') and len(k) == 4 and absint.atom_bounds(st, a) == (0, 0):
                q = T.A(('op', k[1].replace('rem', 'div'), k[2], k[3]))
                x = single_atom(q)
                # k[2] = q * k[3] and q equals something
                for m, c in (n[1] if is_poly(n) else ()):
                    for f in m:
                        fv = ('P', (((f,), 1),))
                        if eq(st, fv, q) is True:
                            r = mul(fv, k[3])
                            if r is not None and sub(n, r) == 0 and le(st, k[2], z) is True: return True
        return None

def run_text(P, what, text):
    """decode one family of texts"""
    fn = 'region_parse' if what == 'region' else 'image_decode'
    public = 'trax_region_decode'
    c = Dec(P, fn, text)
    st = State()
    b = text.bytes
    st.objs[TXT] = ('ext', len(b) + 1, 'ext', 'text'); st.mem[TXT] = dict((k, (x - 256 if x > 127 else x, 1)) for k, x in enumerate(b + b'\0'))
    st.objs[OUTP] = ('ext', 8, 'ext', 'result'); st.mem[OUTP] = {}
    st.roots = (frozenset([TXT, OUTP]),)
    if text.body is not None: c.body = text.body
    name = public if what == 'region' else fn
    L = [f for f in P.bysrc.get(name, []) if not f.decl]
    if not L: return None
    f = L[0]
    I = Interp(P, c); inc = []; n = 0
    try: outs = I.call_function(f, st, [('p', TXT, 0)], 'API', 0, ())
    except Budget: outs = []; inc.append('step budget exhausted')
    for s2, v, kind in outs:
        if kind != 'ret': continue
        n += 1
        t = s2.notes(1)
        w = t[-1][:-8] if t and isinstance(t[-1], str) and t[-1].endswith(': return') else f.where(f.blocks[0][0])
        if v == NULL: continue
        if v == UNDEF or v is None: c.check(False, I, s2, None, None, 'the result is never set', w); continue
        if not is_ptr(v) or v[1][0] != 'heap': c.check(None, I, s2, None, None, 'result', w); continue
        if I.obj_status(s2, v[1]) == 'freed': c.check(False, I, s2, None, None, 'an object that was released is returned', w); continue
        (c.result_region if what == 'region' else c.result_image)(I, s2, v[1], w)
    return dict(name='%s text %s' % (what, text.name()), viol=list(c.viol.values()), obl=c.obl, unproved=['%s: %s' % k if k.__class__ is tuple and len(k) == 2 else str(k) for k in c.unproved], inc=inc + list(I.incomplete), steps=I.nsteps, ends=n)

def texts():
    J = []
    N = lambda c: ('n', c)
    for pre in ('', 'rect:', 'poly:', 'mask:', 'special:', 'foo:', 'RECT:'):
        for n in range(0, 10):
            it = [pre]
            for k in range(n): it += ([','] if k else []) + [N('any')]
            x = Text(*it); x.exact = pre != 'mask:' or n < 4; J.append(('region', x))
        J.append(('region', Text(pre, N('any'), ',')))
        J.append(('region', Text(pre, ',')))
        J.append(('region', Text(pre, ',,,')))
        J.append(('region', Text(pre, N('any'), ',', N('nan'), ',', N('any'), ',', N('any'))))
        J.append(('region', Text(pre, N('any'), ',', N('any'), ',', N('any'), ',', N('nan'))))
        J.append(('region', Text(pre, N('nan'))))
    for w, h in ((2, 2), (1, 1), (0, 3), (3, -1), (-2, -2), ('huge', 'huge'), ('huge', 1), ('negative', 'negative')):
        for run in ((), (1,), (9,), ('huge',), ('negative',), (1, 'huge'), (0, 2, 'huge', 1), (2, 'negative'), (0, 4, 3), (1, 2, 1, 1, 'any')):
            it = ['mask:', N('any'), ',', N('any'), ',', N(w), ',', N(h)]
            for x in run: it += [',', N(x)]
            x = Text(*it); x.exact = is_int(w) and is_int(h); J.append(('region', x))
    J.append(('region', Text('a' * 40)))
    J.append(('region', Text('a' * 15 + ':', N('any'))))
    J.append(('region', Text('a' * 16 + ':', N('any'))))
    J.append(('region', Text(':')))
    im = lambda *a: J.append(('image', Text(*a)))
    for x in ('', ':', 'x', '/a/b.jpg', 'file:', 'file:/', 'file://', 'file://x', 'file:///a', 'http://a/b', 'image', 'image:', 'image:;', 'data', 'data:', 'data:image/jpeg', 'data:image/png', 'data:foo;', 'data:;', 'image:;;;', 'image:;;'):
        im(x)
    im('image:', N('any')); im('image:', N('any'), ';'); im('image:', N('any'), ';', N('any')); im('image:', N('any'), ';', N('any'), ';'); im('image:', N('any'), ';', N('any'), ';rgb'); im('image:', N('any'), ';', N('any'), ';' + 'a' * 40)
    for f in ('rgb', 'gray8', 'gray16', 'foo', ''):
        im('image:', N('any'), ';', N('any'), ';' + f + ';', ('b',)); im('image:', N('any'), ';', N('any'), ';' + f + ';')
    for f in ('image/jpeg', 'image/png', 'foo', ''): im('data:' + f + ';', ('b',)); im('data:' + f + ';')
    return J

PROG = None
def work(j):
    try: return run_text(PROG, *j)
    except build.Broken: raise
    except Exception:
        import traceback
        return dict(name='%s text %s' % (j[0], j[1].name()), viol=[], obl=[0, 0, 0], unproved=[], inc=['analysis stopped: ' + traceback.format_exc()[-500:]], steps=0, ends=0)

def run(pid, tier):
    global PROG
    from result import Result, Violation
    PROG = ir.Program(build.dump('core'))
    if 'trax_region_decode' not in PROG.funcs: raise build.Broken('trax_region_decode is gone')
    J = texts()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p: R = p.map(work, J, chunksize=2)
    r = Result('Abstract interpretation of the region and image decoders over families of texts (fixed prefix and separators, classes of numbers, Base64 body of any length): every access inside its block, no assertion, no overflowing size, results the accessors can use.')
    if all(x is None for j, x in zip(J, R) if j[0] == 'image'): r.inconclusive.append('there is no function image_decode any more')
    n = 0
    for x in R:
        if x is None: continue
        n += 1
        r.obligations += sum(x['obl']); r.discharged += x['obl'][0]
        for v in x['viol']: r.violations.append(Violation(v['where'], v['func'], v['what'], [x['name']] + (['via ' + ' > '.join(v['stack'])] if v['stack'] else []) + v['trace'][-14:]))
        r.inconclusive += ['%s: %s' % (x['name'], i) for i in x['inc'] + x['unproved']]
    r.coverage = {'text_families': n, 'steps': sum(x['steps'] for x in R if x), 'returns': sum(x['ends'] for x in R if x)}
    r.assumptions = ['allocation succeeds', 'the numbers the C library reads from a text are arbitrary; the Base64 functions keep the contract D03 decides', 'texts with more than nine numbers, and masks with more than five runs, behave like the ones analysed']
    r.sample({'texts': [x['name'] for x in R if x][::23]})
    return r
if __name__ == '__main__':
    t = time.time()
    r = run('M04', 'quick'); print(r.obligations, r.discharged, r.coverage, '%.1f' % (time.time() - t))
    for v in r.violations[:15]: print(v.text())
    for i in sorted(set(r.inconclusive))[:40]: print('?', i[:300])
