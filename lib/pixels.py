"""Pixel blocks and indexed access: D04 (rows tile the block), the transport half of D03 (the block is coded with one
size), M05 (no index reaches memory outside its container)."""
import build, ir, core, absint, libc, vocab
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, eq, le, refine, assume_eq, bounds
from core import Base, show_trace
from result import Result

IMG = ('ext', 'image'); DATA = ('ext', 'pixels'); REG = ('ext', 'region'); XS = ('ext', 'x coordinates'); YS = ('ext', 'y coordinates')
LIST = ('ext', 'list'); ITEMS = ('ext', 'items'); PROPS = ('ext', 'properties')
BPP = {'TRAX_IMAGE_MEMORY_RGB': 3, 'TRAX_IMAGE_MEMORY_GRAY8': 1, 'TRAX_IMAGE_MEMORY_GRAY16': 2}
def atom(st, name, lo, hi):
    v = T.A(('env', name)); refine(st, single_atom(v), lo, hi); return v

class Pix(Base):
    part_limit = 20; max_states = 3000; max_heads = 200; steps = 300000
    def __init__(s, P, entry):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models); s.codes = []
    def env(s, k): return k[0] == 'env'
    def on_access(s, I, st, fr, ins, p, n, k):
        if not is_ptr(p): return
        z = I.obj_size(st, p[1])
        if z is None or not is_num(z) or not is_num(n): return
        hi = le(st, add(p[2], n), z); lo = le(st, 0, p[2])
        if hi is None: hi = core.refuted(st, lambda t: le(t, add(p[2], n), z), [p[2], z], s.env)
        if lo is None: lo = core.refuted(st, lambda t: le(t, 0, p[2]), [p[2]], s.env)
        key = (fr.f.where(ins), fr.f.src)
        if False in (hi, lo): s.rep(I, st, fr, ins, 'oob', '%s of %s bytes at offset %s of a block of %s bytes' % (k, T.show(n), T.show(p[2]), T.show(z)))
        elif None in (hi, lo): s.unproved.setdefault(key, (T.show(p[2]), T.show(n), T.show(z)))
        else: s.accesses['proved'] += 1
    def go(s, fname, st, args):
        I = Interp(s.prog, s)
        fn = [n for n, f in s.prog.funcs.items() if f.src == fname and not f.decl]
        if not fn: raise build.Broken('%s is not defined' % fname)
        try: outs = I.call_function(s.prog.funcs[fn[0]], st, args, 'API', 0, ())
        except Budget: return I, None
        return I, [(s2, v) for s2, v, k in outs if k == 'ret']
    where = vocab.Names.where

def image_state(P, C, fname, size=True):
    st = State(); st.mon = {}
    g = lambda n: P.field('trax_image', n)
    w, h = atom(st, 'width', 1, 20000), atom(st, 'height', 1, 20000)
    st.objs[IMG] = ('ext', P.didx['trax_image']['size'], 'ext', 'image')
    bpp = BPP.get(fname)
    st.objs[DATA] = ('ext', mul(mul(w, h), bpp) if bpp and size else None, 'ext', 'pixels')
    st.mem[IMG] = {g('type')[0]: (C['TRAX_IMAGE_MEMORY'], g('type')[1]), g('width')[0]: (w, g('width')[1]), g('height')[0]: (h, g('height')[1]),
                   g('format')[0]: (C[fname], g('format')[1]), g('data')[0]: (('p', DATA, 0), 8)}
    st.roots = (frozenset([IMG, DATA]),)
    return st, w, h

def region_state(P, kind):
    st = State(); st.mon = {}
    st.objs[REG] = ('ext', P.didx['region_container']['size'], 'ext', 'region')
    d = P.field('region_container', 'data')[0]; t = P.field('region_container', 'type')
    m = st.mem[REG] = {t[0]: (kind, t[1])}
    st.roots = (frozenset([REG]),)
    return st, m, d

def formats(P):
    C = core.consts()
    return C, sorted(k for k in C if k.startswith('TRAX_IMAGE_MEMORY_') and not k.endswith('ILLEGAL'))

def rows(P, r, D04=True, M05=True):
    C, fs = formats(P)
    def row(fname, st, args, i, h, w, bpp, label):
        c = Pix(P, fname); I, outs = c.go(fname, st, args)
        if outs is None: r.inconclusive.append('%s: analysis did not finish' % fname); return
        wh = c.where(fname)
        for s2, v in outs:
            if v == NULL: r.ob(True, wh, fname, ''); continue
            if not is_ptr(v) or v[1] != DATA: r.ob(None, wh, fname, '%s: result %s' % (label, v)); continue
            if D04:
                want = mul(mul(i, w), bpp)
                e = eq(s2, v[2], want)
                if e is None: e = core.refuted(s2, lambda t: eq(t, v[2], want), [v[2], want], c.env)
                r.ob(e, wh, fname, '%s: row r is at offset %s, it should be at %s' % (label, T.show(v[2]), T.show(want)), show_trace(s2.notes(6)), '%s-offset-%s' % (fname, label))
            if M05:
                for ok, ex, what in ((lambda t: le(t, 0, i), [i], 'a negative row'), (lambda t: le(t, add(i, 1), h), [i, h], 'a row behind the last one')):
                    e = ok(s2)
                    if e is None: e = core.refuted(s2, ok, ex, c.env)
                    r.ob(e, wh, fname, '%s: %s is not refused' % (label, what), show_trace(s2.notes(6)), '%s-%s' % (fname, what))
    for fname in ('trax_image_write_memory_row', 'trax_image_get_memory_row'):
        for f in fs:
            if f not in BPP: r.inconclusive.append('%s: unknown format %s' % (fname, f)); continue
            st, w, h = image_state(P, C, f)
            i = atom(st, 'row', -(1 << 31), (1 << 31) - 1)
            row(fname, st, [('p', IMG, 0), i], i, h, w, BPP[f], f[len('TRAX_IMAGE_MEMORY_'):].lower())
    for fname in ('trax_region_write_mask_row', 'trax_region_get_mask_row'):
        st, m, d = region_state(P, kinds(P)['MASK'])
        w, h, i = atom(st, 'width', 1, 20000), atom(st, 'height', 1, 20000), atom(st, 'row', -(1 << 31), (1 << 31) - 1)
        g = lambda n: P.field('region_mask', n)
        m[d + g('width')[0]] = (w, 4); m[d + g('height')[0]] = (h, 4); m[d + g('data')[0]] = (('p', DATA, 0), 8)
        st.objs[DATA] = ('ext', mul(w, h), 'ext', 'pixels'); st.roots = (frozenset([REG, DATA]),)
        row(fname, st, [('p', REG, 0), i], i, h, w, 1, 'mask')

def kinds(P): return {k: P.enum_value(k) for k in ('EMPTY', 'SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK')}

def blocks(P, r):
    """what creation allocates"""
    C, fs = formats(P)
    g = lambda n: P.field('trax_image', n)
    for f in fs:
        if f not in BPP: continue
        c = Pix(P, 'trax_image_create_memory'); st = State(); st.mon = {}; st.roots = (frozenset(),)
        w, h = atom(st, 'width', 1, 20000), atom(st, 'height', 1, 20000)
        I, outs = c.go('trax_image_create_memory', st, [w, h, C[f]])
        if outs is None: r.inconclusive.append('trax_image_create_memory: analysis did not finish'); continue
        wh = c.where('trax_image_create_memory')
        for s2, v in outs:
            if v == NULL or not is_ptr(v): r.ob(None, wh, '', 'result'); continue
            m = s2.mem.get(v[1]) or {}
            d = m.get(g('data')[0])
            z = I.obj_size(s2, d[0][1]) if d and is_ptr(d[0]) else None
            check_eq(r, c, s2, z, mul(mul(w, h), BPP[f]), wh, 'trax_image_create_memory', 'the block of a %s image has %%s bytes, its rows %%s' % f[18:].lower(), 'block-' + f)
            for fld, want in (('width', w), ('height', h), ('format', C[f])):
                x = m.get(g(fld)[0]); check_eq(r, c, s2, x[0] if x else None, want, wh, 'trax_image_create_memory', 'the %s of a new image is %%s instead of %%s' % fld, 'field-' + fld)
    c = Pix(P, 'trax_region_create_mask'); st = State(); st.mon = {}; st.roots = (frozenset(),)
    w, h, x, y = atom(st, 'width', 1, 20000), atom(st, 'height', 1, 20000), atom(st, 'x', -20000, 20000), atom(st, 'y', -20000, 20000)
    I, outs = c.go('trax_region_create_mask', st, [x, y, w, h])
    if outs is None: r.inconclusive.append('trax_region_create_mask: analysis did not finish'); return
    wh = c.where('trax_region_create_mask')
    d = P.field('region_container', 'data')[0]; q = lambda n: P.field('region_mask', n)[0] + d
    for s2, v in outs:
        if not is_ptr(v): r.ob(None, wh, '', 'result'); continue
        m = s2.mem.get(v[1]) or {}
        p = m.get(q('data'))
        z = I.obj_size(s2, p[0][1]) if p and is_ptr(p[0]) else None
        check_eq(r, c, s2, z, mul(w, h), wh, 'trax_region_create_mask', 'the block of a mask has %s bytes, its rows %s', 'block-mask')
        for fld, want in (('width', w), ('height', h), ('x', x), ('y', y)):
            t = m.get(q(fld)); check_eq(r, c, s2, t[0] if t else None, want, wh, 'trax_region_create_mask', 'the %s of a new mask is %%s instead of %%s' % fld, 'field-' + fld)

def check_eq(r, c, st, a, b, wh, fn, text, key):
    if a is None or not is_num(a): r.ob(None, wh, fn, text % (a, T.show(b))); return
    e = eq(st, a, b)
    if e is None: e = core.refuted(st, lambda t: eq(t, a, b), [a, b], c.env)
    r.ob(e, wh, fn, text % (T.show(a), T.show(b)), show_trace(st.notes(6)), fn + '-' + key)

# ---- transport
def codec(c):
    """models of the Base64 functions: sizes are recorded"""
    def enc(I, st, fr, ins, a):
        st.mon['enc'] = st.mon.get('enc', ()) + (('encode', a[0], a[1], a[2], fr.f.where(ins), fr.f.src),)
        return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 1, 1 << 30))]
    def enclen(I, st, fr, ins, a):
        v = T.A(('enclen', a[0])); refine(st, single_atom(v), 1, 1 << 30)
        return [(st, v)]
    def dec(I, st, fr, ins, a):
        st.mon['enc'] = st.mon.get('enc', ()) + (('decode', a[0], a[1], None, fr.f.where(ins), fr.f.src),)
        return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1 << 30))]
    def declen(I, st, fr, ins, a):
        v = T.A(('env', 'decodedlen', a[0])); refine(st, single_atom(v), 1, 1 << 30)
        return [(st, v)]
    for n, m in (('base64encode', enc), ('base64encodelen', enclen), ('base64decode', dec), ('base64decodelen', declen)):
        for k in [k for k, f in c.prog.funcs.items() if f.src == n and not f.decl]: c.models[k] = m

class Codec(Pix):
    def __init__(s, P, entry):
        Pix.__init__(s, P, entry); codec(s)
        s.models['snprintf'] = s.models['sprintf'] = s.fmt
        for n in ('parse_uri', 'strntok'):
            for kk in [kk for kk, f in P.funcs.items() if f.src == n and not f.decl]: s.models[kk] = getattr(vocab.ImageModels, n)
        s.models['strtol'] = s.strtol
    def strtol(s, I, st, fr, ins, args):
        out = vocab.ImageModels.strtol(I, st, fr, ins, args)
        return out
    def fmt(s, I, st, fr, ins, args):
        # the length is the same for the same format and values
        nm = ins.d['callee'][1]; k = 1 if nm == 'sprintf' else 2
        v = T.A(('formatted',) + tuple(args[k:])); refine(st, single_atom(v), 1, 1 << 20)
        if nm == 'sprintf' and is_ptr(args[0]):
            s.on_access(I, st, fr, ins, args[0], add(v, 1), 'write')
            m = dict(st.mem.get(args[0][1]) or {}); m['*'] = True; st.mem[args[0][1]] = m
        return [(st, v)]

def transport(P, r):
    C, fs = formats(P)
    for k in ('image_encode', 'image_decode', 'base64encode', 'base64decode', 'base64encodelen', 'base64decodelen'):
        if vocab.have(P, k): r.inconclusive.append('%s does not exist' % k); return
    g = lambda n: P.field('trax_image', n)
    jobs = [(C['TRAX_IMAGE_MEMORY'], f) for f in fs if f in BPP] + [(C['TRAX_IMAGE_BUFFER'], f) for f in C if f.startswith('TRAX_IMAGE_BUFFER_') and not f.endswith('ILLEGAL')]
    for kind, f in jobs:
        c = Codec(P, 'image_encode')
        st, w, h = image_state(P, C, f)
        want = mul(mul(w, h), BPP[f]) if f in BPP else w
        st.mem[IMG][g('type')[0]] = (kind, g('type')[1])
        I, outs = c.go('image_encode', st, [('p', IMG, 0)])
        if outs is None: r.inconclusive.append('image_encode: analysis did not finish'); continue
        for s2, v in outs:
            E = s2.mon.get('enc', ())
            if len(E) != 1: r.ob(None, c.where('image_encode'), '', 'an image of format %s is coded %d times' % (f, len(E))); continue
            _, dst, src, n, wh, fn = E[0]
            r.ob(True if src == ('p', DATA, 0) else None if not is_ptr(src) or src[1] != DATA else False, wh, fn, 'the pixels of a %s image are coded from offset %s' % (f, T.show(src[2]) if is_ptr(src) else '?'), '', 'source-' + f)
            check_eq(r, c, s2, n, want, wh, fn, 'an image of format ' + f + ' is coded as %s bytes, it has %s', 'size-' + f)
            z = I.obj_size(s2, dst[1]) if is_ptr(dst) else None
            if z is None or not is_num(n): r.ob(None, wh, fn, 'size of the text'); continue
            need = T.A(('enclen', n))
            ok = le(s2, add(dst[2], need), z)
            if ok is None and len(set(a for a in T.atoms_of(add(z, 0)) if T.atom_key(a)[0] == 'enclen') - {single_atom(need)}): ok = False   # sized for another length
            if ok is None: ok = core.refuted(s2, lambda t: le(t, add(dst[2], need), z), [dst[2], need, z], lambda k: True)
            r.ob(ok, wh, fn, 'the text of a %s image has %s bytes, coding needs %s' % (f, T.show(z), T.show(add(dst[2], need))), show_trace(s2.notes(6)), 'room-' + f)
    # decoding
    c = Codec(P, 'image_decode')
    vn = vocab.Names(P, 'image_decode')
    for n in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'): c.models[n] = vn.cmp
    st = vocab.base_state()
    I, outs = c.go('image_decode', st, [('p', vocab.TEXT, 0)])
    if outs is None: r.inconclusive.append('image_decode: analysis did not finish'); return
    seen = set()
    for s2, v in outs:
        for _, dst, src, n, wh, fn in s2.mon.get('enc', ()):
            L = T.A(('env', 'decodedlen', src))
            z = I.obj_size(s2, dst[1]) if is_ptr(dst) else None
            if z is None: r.ob(None, wh, fn, 'size of the block'); continue
            ok = le(s2, add(dst[2], L), z)
            if ok is None: ok = core.refuted(s2, lambda t: le(t, add(dst[2], L), z), [z, L, dst[2]], c.env)
            r.ob(ok, wh, fn, 'decoding fills up to %s bytes of a block of %s bytes' % (T.show(add(dst[2], L)), T.show(z)), show_trace(s2.notes(6)), 'decode-room')
            if not is_ptr(v): continue
            m = s2.mem.get(v[1]) or {}
            ty = m.get(g('type')[0]); d = m.get(g('data')[0])
            r.ob(True if d and d[0] == dst else None, wh, fn, 'where the decoded bytes go')
            if ty and ty[0] == C['TRAX_IMAGE_BUFFER']:
                x = m.get(g('width')[0]); check_eq(r, c, s2, x[0] if x else None, sub(L, 1), wh, fn, 'the length of a decoded buffer is %s instead of %s', 'buffer-length'); seen.add('buffer')
            elif ty and ty[0] == C['TRAX_IMAGE_MEMORY']:
                seen.add('memory')
                x, y, fm = m.get(g('width')[0]), m.get(g('height')[0]), m.get(g('format')[0])
                name = [k for k in BPP if fm and C.get(k) == fm[0]]
                if not (x and y and name and is_num(x[0]) and is_num(y[0])): r.ob(None, wh, fn, 'size of a decoded image'); continue
                want = mul(mul(x[0], y[0]), BPP[name[0]])
                e = eq(s2, sub(L, 1), want)
                if e is not True and quotient(s2, sub(L, 1), want): e = True
                if e is None: e = core.refuted(s2, lambda t: eq(t, sub(L, 1), want), [L, want], lambda k: True)
                r.ob(e, wh, fn, 'a decoded %s image has %s bytes where its size says %s' % (name[0][18:].lower(), T.show(sub(L, 1)), T.show(want)), show_trace(s2.notes(8)), 'decode-size-' + name[0])
    r.ob('memory' in seen or None, c.where('image_decode'), 'image_decode', 'no decoded memory image'); r.ob('buffer' in seen or None, c.where('image_decode'), 'image_decode', 'no decoded buffer')

def quotient(st, n, want):
    """n % d == 0 and n / d == k are known, and k * d is what is wanted"""
    divs = {}
    for a in set(st.info) | set(x for f in st.facts for x in T.atoms_of(f)):
        k = T.atom_key(a)
        if k[0] == 'op' and k[1] in ('sdiv', 'udiv', 'srem', 'urem') and k[2] == n: divs.setdefault(repr(k[3]), {})[k[1][1:]] = (a, k[3])
    for d in divs.values():
        if 'div' in d and 'rem' in d:
            if eq(st, ('P', (((d['rem'][0],), 1),)), 0) is not True: continue
            v = ('P', (((d['div'][0],), 1),))
            dv = d['div'][1]
            # want == dv * k  with k known equal to the quotient
            for k in [x for x in candidates(st, want, dv)]:
                if eq(st, v, k) is True: return True
    return False
def candidates(st, want, dv):
    for a in T.atoms_of(want):
        x = ('P', (((a,), 1),))
        if sub(mul(x, dv), want) == 0: yield x

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    if pid == 'D04':
        r = Result('Abstract interpretation of the functions that create pixel blocks and hand out rows, with width, height and row as unknowns and every pixel format in turn. Rule: the offset of row r is, as a polynomial, r * width * bytes per pixel, and the block has width * height * bytes per pixel bytes.')
        rows(P, r, True, False); blocks(P, r); transport(P, r)
    else:
        r = Result('Abstract interpretation of the indexed accessors with container size and index as unknowns. Rule: every access lies in the block of the container on every path; a row is handed out only for 0 <= row < height.')
        rows(P, r, False, True); indexed(P, r)
    r.sample([o for o in r.coverage])
    return r

def indexed(P, r):
    C = core.consts()
    def check(fname, c, I, outs):
        if outs is None: r.inconclusive.append('%s: analysis did not finish' % fname); return
        wh = c.where(fname)
        bad = [x for x in c.reports.values() if x.kind in ('oob', 'null', 'undef')]
        for x in bad: r.ob(False, x.where, x.func, '%s: %s' % (fname, x.what), x.trace, '%s-%s' % (fname, x.kind))
        for k, v in c.unproved.items(): r.ob(None, k[0], k[1], '%s: access at %s of %s bytes in %s' % ((fname,) + v))
        for k in range(c.accesses['proved']): r.ob(True, wh, fname, '')
        r.coverage.setdefault('accessors', {})[fname] = c.accesses['proved']
    for fname, extra in (('trax_region_set_polygon_point', lambda st: [T.A(('env', 'fx')), T.A(('env', 'fy'))]), ('trax_region_get_polygon_point', None)):
        st, m, d = region_state(P, kinds(P)['POLYGON'])
        n, i = atom(st, 'count', 0, 1 << 20), atom(st, 'index', -(1 << 31), (1 << 31) - 1)
        g = lambda k: P.field('region_polygon', k)[0] + d
        m[g('count')] = (n, 4); m[g('x')] = (('p', XS, 0), 8); m[g('y')] = (('p', YS, 0), 8)
        st.objs[XS] = ('ext', mul(n, 4), 'ext', 'x coordinates'); st.objs[YS] = ('ext', mul(n, 4), 'ext', 'y coordinates')
        a = [('p', REG, 0), i]
        roots = [REG, XS, YS]
        if extra: a += extra(st)
        else:
            for k in ('x', 'y'):
                o = ('ext', 'out ' + k); st.objs[o] = ('ext', 4, 'ext', 'out'); roots.append(o); a.append(('p', o, 0))
        st.roots = (frozenset(roots),)
        c = Pix(P, fname); I, outs = c.go(fname, st, a); check(fname, c, I, outs)
    def stub(I, st, fr, ins, args):
        o = I.newobj(st, 'heap', (fr.uid, ins.id), 16)
        return [(st, ('p', o, 0))]
    for fname in ('trax_object_list_get', 'trax_object_list_set', 'trax_object_list_properties'):
        st = State(); st.mon = {}
        n, i = atom(st, 'count', 0, 1 << 20), atom(st, 'index', -(1 << 31), (1 << 31) - 1)
        g = lambda k: P.field('trax_object_list', k)[0]
        st.objs[LIST] = ('ext', P.didx['trax_object_list']['size'], 'ext', 'list')
        st.objs[ITEMS] = ('ext', mul(n, 8), 'ext', 'items'); st.objs[PROPS] = ('ext', mul(n, 8), 'ext', 'properties')
        st.mem[LIST] = {g('size'): (n, 4), g('regions'): (('p', ITEMS, 0), 8), g('properties'): (('p', PROPS, 0), 8)}
        st.objs[REG] = ('ext', P.didx['region_container']['size'], 'ext', 'region')
        st.roots = (frozenset([LIST, ITEMS, PROPS, REG]),)
        a = [('p', LIST, 0), i]
        if fname.endswith('set'): a.append(('p', REG, 0))
        c = Pix(P, fname)
        for nm, mod in (('trax_region_clone', stub), ('trax_region_release', lambda I, st, fr, ins, args: [(st, None)])): c.models[nm] = mod
        I, outs = c.go(fname, st, a); check(fname, c, I, outs)
    for fname in ('trax_image_list_get', 'trax_image_list_set'):
        st = State(); st.mon = {}
        i = atom(st, 'channel', -(1 << 31), (1 << 31) - 1)
        st.objs[LIST] = ('ext', P.didx['trax_image_list']['size'], 'ext', 'list'); st.objs[IMG] = ('ext', P.didx['trax_image']['size'], 'ext', 'image')
        st.roots = (frozenset([LIST, IMG]),)
        a = [('p', LIST, 0), i] if fname.endswith('get') else [('p', LIST, 0), ('p', IMG, 0), i]
        c = Pix(P, fname); I, outs = c.go(fname, st, a); check(fname, c, I, outs)
if __name__ == '__main__':
    import sys
    r = run(sys.argv[1], 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations: print(v.text())
    for i in r.inconclusive: print('?', i)
