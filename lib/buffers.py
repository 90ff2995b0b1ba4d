"""M03: the growing text buffers and string lists, and the reader's input block.

Each function that takes a buffer (or list) is analysed alone from the class invariant
    0 <= position <= size,  buffer = a block of at least size elements,
which covers every history of calls by induction: creation must establish it, every operation must keep it, and every
access must lie inside the block under it.  Numbers are unknowns; formatting is an unknown length r >= 0."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, UNDEF, eq, le, refine, assume_le, assume_eq, bounds
from core import Base, show_trace
from pixels import atom
from result import Result

OBJ = ('ext', 'container'); BLK = ('ext', 'block'); STR = ('ext', 'string'); CELL = ('ext', 'variable'); ELEM = ('ext', 'element')
BIG = 1 << 29
STRUCTS = {'string_buffer': 1, 'string_list': 8}

class Buf(Base):
    part_limit = 12; max_states = 2000; max_heads = 200; steps = 200000
    def __init__(s, P, entry):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models)
        for n in ('vsnprintf', 'snprintf', 'vsprintf', 'sprintf'): s.models[n] = s.fmt
        s.models['llvm.va_start'] = s.va_start; s.models['llvm.va_end'] = lambda I, st, fr, ins, a: [(st, None)]
        s.models['llvm.va_copy'] = s.va_copy
        s.models['memcpy'] = s.models['memmove'] = s.copy
        s.models['strcpy'] = s.cpy
    # every unknown these analyses start from may take any value of its range independently of the others
    def env(s, k): return k[0] in ('env', 'strlen')
    def on_call(s, I, st, fr, ins, name, args):
        if name.startswith('llvm.mem') and ('memcpy' in name or 'memmove' in name): return s.copy(I, st, fr, ins, args)
        return None
    def on_access(s, I, st, fr, ins, p, n, k):
        if not is_ptr(p): return
        z = I.obj_size(st, p[1])
        if z is None or not is_num(z) or not is_num(n): return
        hi = le(st, add(p[2], n), z); lo = le(st, 0, p[2])
        if hi is None: hi = core.refuted(st, lambda t: le(t, add(p[2], n), z), [p[2], z, n], s.env)
        if lo is None: lo = core.refuted(st, lambda t: le(t, 0, p[2]), [p[2]], s.env)
        if False in (hi, lo): s.rep(I, st, fr, ins, 'oob', '%s of %s bytes at offset %s of a block of %s bytes' % (k, T.show(n), T.show(p[2]), T.show(z)))
        elif None in (hi, lo): s.unproved.setdefault((fr.f.where(ins), fr.f.src), (T.show(p[2]), T.show(n), T.show(z)))
        else: s.accesses['proved'] += 1
    def va_start(s, I, st, fr, ins, a):
        st.mon['va'] = 'ready'
        return [(st, None)]
    def va_copy(s, I, st, fr, ins, a): st.mon['va'] = 'copied'; return [(st, None)]
    def fmt(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]; bounded = 'n' in nm.replace('printf', '')
        if nm.startswith('v'):
            if st.mon.get('va') == 'used': s.rep(I, st, fr, ins, 'undef', 'the arguments are read a second time without va_start')
            if st.mon.get('va') == 'ready': st.mon['va'] = 'used'
        f = args[2 if bounded else 1]
        r = T.A(('env', 'formatted', f if is_ptr(f) else 0)); refine(st, single_atom(r), 0, BIG)
        d = args[0]
        if bounded:
            n = I.num(st, args[1], (fr.uid, ins.id, 'n'))
            neg = le(st, 0, n)
            if neg is False: s.rep(I, st, fr, ins, 'oob', 'the room given for formatting is negative: %s' % T.show(n))
            if is_int(n) and n == 0: return [(st, r)]
            p = I.as_ptr(d) if not is_ptr(d) else d
            if is_ptr(p):
                z = I.obj_size(st, p[1])
                if z is not None and is_num(z):
                    a = le(st, add(p[2], n), z)
                    if a is not True and le(st, add(p[2], add(r, 1)), z) is True: a = True
                    if a is not True:
                        # the real extent is min(n, r + 1)
                        pred = lambda t: True if True in (le(t, add(p[2], n), z), le(t, add(p[2], add(r, 1)), z), le(t, n, 0)) else False if le(t, add(p[2], n), z) is False and le(t, add(p[2], add(r, 1)), z) is False and le(t, 1, n) is True else None
                        a = core.refuted(st, pred, [p[2], n, z, r], s.env)
                    if a is True: s.accesses['proved'] += 1
                    elif a is False: s.rep(I, st, fr, ins, 'oob', 'formatting writes up to %s bytes at offset %s of a block of %s bytes' % (T.show(n), T.show(p[2]), T.show(z)))
                    else: s.unproved.setdefault((fr.f.where(ins), fr.f.src), (T.show(p[2]), T.show(n), T.show(z)))
                    st.mon['fmt'] = (n, r, p[2])
                s.wipe(st, p[1])
        else:
            p = d
            if is_ptr(p):
                s.on_access(I, st, fr, ins, p, add(r, 1), 'write'); st.mon['fmt'] = (add(r, 1), r, p[2]); s.wipe(st, p[1])
        return [(st, r)]
    def wipe(s, st, o):
        m = {k: v for k, v in (st.mem.get(o) or {}).items() if not is_int(k)} if o != CELL else dict(st.mem.get(o) or {})
        m['*'] = True
        st.mem[o] = m
    def copy(s, I, st, fr, ins, args):
        n = I.num(st, args[2], (fr.uid, ins.id, 'n'))
        if is_ptr(args[0]) and is_ptr(args[1]): st.mon['cp'] = st.mon.get('cp', ()) + ((args[0], args[1], n),)
        return [(x[0], x[1]) for x in I.memcpy(fr, ins, st, args[0], args[1], n)]
    def cpy(s, I, st, fr, ins, args):
        if is_ptr(args[0]) and is_ptr(args[1]):
            st.mon['cp'] = st.mon.get('cp', ()) + ((args[0], args[1], add(libc.strlen_term(I, st, args[1]), 1)),)
        return libc.m_strcpy(I, st, fr, ins, args)
    def on_store(s, I, st, fr, ins, p, v):
        # single stores at offsets that are not constant: remembered for the terminator
        if is_ptr(p): st.mon['st'] = st.mon.get('st', ()) + ((p, v),)
    def mon_key(s, st): return (st.mon.get('va'), len(st.mon.get('cp', ())) > 0)

def setup(P, kind, L=False):
    st = State(); st.mon = {}
    e = STRUCTS[kind]
    g = lambda n: P.field(kind, n)
    pos, size = atom(st, 'position', 0, BIG), atom(st, 'size', 0, BIG)
    assume_le(st, pos, size)
    st.objs[OBJ] = ('heap', P.didx[kind]['size'], 'live', 'container'); st.objs[BLK] = ('heap', mul(size, e), 'live', 'block')
    st.objs[STR] = ('ext', None, 'ext', 'string')
    st.mem[OBJ] = {g('buffer')[0]: (('p', BLK, 0), 8), g('position')[0]: (pos, g('position')[1]), g('size')[0]: (size, g('size')[1])}
    st.mem[BLK] = {'*': True}
    st.roots = (frozenset([OBJ, BLK, STR]),)
    return st, pos, size

def prove(c, st, pred, exprs):
    v = pred(st)
    if v is None: v = core.refuted(st, pred, exprs, c.env)
    return v

def invariant(P, kind, r, c, I, st, o, wh, fn, lab=''):
    e = STRUCTS[kind]
    g = lambda n: P.field(kind, n)[0]
    m = st.mem.get(o) or {}
    b, p, z = [m.get(g(n)) for n in ('buffer', 'position', 'size')]
    if not (b and p and z) or not (is_num(p[0]) and is_num(z[0])):
        if '*' in m: r.ob(None, wh, fn, 'state of the container at the end')
        else: r.ob(False if '*' not in m and None in (b, p, z) else None, wh, fn, '%s is not set' % ' and '.join(n for n, x in (('buffer', b), ('position', p), ('size', z)) if not x), show_trace(st.notes(6)), fn + '-unset')
        return None
    p, z = p[0], z[0]
    tr = show_trace(st.notes(6))
    r.ob(prove(c, st, lambda t: le(t, 0, p), [p]), wh, fn, 'position can become negative (%s)' % T.show(p), tr, fn + '-negative')
    r.ob(prove(c, st, lambda t: le(t, p, z), [p, z]), wh, fn, 'more elements in use (%s) than allocated (%s)' % (T.show(p), T.show(z)), tr, fn + '-over')
    if not is_ptr(b[0]): r.ob(False if b[0] == NULL and prove(c, st, lambda t: le(t, z, 0), [z]) is False else None, wh, fn, 'the block is %s' % (b[0],), tr, fn + '-noblock'); return None
    stt = I.obj_status(st, b[0][1])
    if stt == 'freed': r.ob(False, wh, fn, 'the block in use has been released', tr, fn + '-freed'); return None
    bs = I.obj_size(st, b[0][1])
    if bs is None or not is_num(bs): r.ob(None, wh, fn, 'size of the block')
    else: r.ob(prove(c, st, lambda t: le(t, add(mul(z, e), b[0][2]), bs), [z, bs, b[0][2]]), wh, fn, 'size says %s elements, the block has %s bytes' % (T.show(z), T.show(bs)), tr, fn + '-block')
    return b[0], p, z

def ptype(f, i): return (f.vartypes.get(i) or '').replace('const ', '').replace(' ', '')

def container_param(f):
    for i in range(f.nargs):
        t = ptype(f, i)
        for k in STRUCTS:
            if t == k + '*': return i, k, 1
            if t == k + '**': return i, k, 2
    return None

def returns(f):
    t = (f.d.get('rtype') or '')
    return None

def analyse(P, r, f, names):
    """one operation of the container"""
    cp = container_param(f)
    c = Buf(P, f.src)
    fn = f.src
    wh = '%s:%s' % (ir.short(f.file), f.line)
    if cp is None:
        # creation: the result is a new container
        kind = 'string_list' if 'list' in fn else 'string_buffer'
        st = State(); st.mon = {}; st.roots = (frozenset(),)
        args = []
        for i, a in enumerate(f.args): args.append(atom(st, 'initial size', 1, BIG) if a[1] != 'ptr' else ('p', STR, 0))
        idx = None
    else:
        idx, kind, lvl = cp
        st, pos, size = setup(P, kind)
        args = []
        for i, a in enumerate(f.args):
            if i == idx:
                if lvl == 1: args.append(('p', OBJ, 0))
                else:
                    st.objs[CELL] = ('ext', 8, 'ext', 'variable'); st.mem[CELL] = {0: (('p', OBJ, 0), 8)}
                    st.roots = (st.roots[0] | frozenset([CELL]),)
                    args.append(('p', CELL, 0))
            elif a[1] == 'ptr': args.append(('p', STR, 0))
            elif a[1] == 'i8': args.append(atom(st, 'character', -128, 127))
            else: args.append(atom(st, 'number %d' % i, -(1 << 31), (1 << 31) - 1))
    if kind == 'string_list':
        # elements in use are null or strings of their own
        pass
    I = Interp(P, c)
    try: outs = I.call_function(f, st, args, 'API', 0, ())
    except Budget: r.inconclusive.append('%s: analysis did not finish' % fn); return
    outs = [(s2, v) for s2, v, k in outs if k == 'ret']
    for x in c.reports.values():
        if x.kind in ('oob', 'null', 'undef', 'freed', 'badfree'): r.ob(False, x.where, x.func, '%s: %s' % (fn, x.what), x.trace, '%s-%s' % (fn, x.kind))
    for k, v in c.unproved.items(): r.ob(None, k[0], k[1], '%s: access at %s of %s bytes in %s' % ((fn,) + v))
    for k in range(c.accesses['proved']): r.ob(True, wh, fn, '')
    r.coverage.setdefault('operations', {})[fn] = {'accesses proved': c.accesses['proved'], 'exits': len(outs)}
    e = STRUCTS[kind]
    for s2, v in outs:
        if idx is None:
            if not is_ptr(v): r.ob(None, wh, fn, 'result of creation'); continue
            x = invariant(P, kind, r, c, I, s2, v[1], wh, fn)
            if x:
                r.ob(prove(c, s2, lambda t: eq(t, x[1], 0), [x[1]]), wh, fn, 'a new container is not empty (%s)' % T.show(x[1]), show_trace(s2.notes(6)), fn + '-notempty')
            continue
        stt = I.obj_status(s2, OBJ)
        if stt == 'freed':
            if lvl == 2:
                q = (s2.mem.get(CELL) or {}).get(0)
                r.ob(True if q and q[0] == NULL else False if q and is_ptr(q[0]) and q[0][1] == OBJ else None, wh, fn, 'the released container is still referenced', show_trace(s2.notes(6)), fn + '-dangling')
            continue
        x = invariant(P, kind, r, c, I, s2, OBJ, wh, fn)
        if x is None: continue
        b, p, z = x
        tr = show_trace(s2.notes(6))
        role = names.get(fn)
        if role == 'reset': r.ob(prove(c, s2, lambda t: eq(t, p, 0), [p]), wh, fn, 'after a reset %s elements are in use' % T.show(p), tr, fn + '-reset')
        elif role == 'push':
            r.ob(prove(c, s2, lambda t: eq(t, p, add(pos, 1)), [p, pos]), wh, fn, 'appending one element moves the position from %s to %s' % (T.show(pos), T.show(p)), tr, fn + '-step')
            # where the new element went
            hits = [(q, val) for q, val in s2.mon.get('st', ()) if q[1] == b[1] and eq(s2, q[2], mul(pos, e)) is True]
            if kind == 'string_buffer':
                want = args[1 - idx]
                other = [q for q, val in s2.mon.get('st', ()) if q[1] == b[1] and eq(s2, q[2], mul(pos, e)) is False]
                r.ob(True if any(eq(s2, sv(s2, val), want) is True or val == want for q, val in hits) else False if not hits and other else None, wh, fn, 'the character is not stored at the old position', tr, fn + '-where')
            else:
                other = [q for q, val in s2.mon.get('st', ()) if q[1] == b[1] and eq(s2, q[2], mul(pos, e)) is False]
                if not hits: r.ob(False if other else None, wh, fn, 'the string is not stored at the old position', tr, fn + '-where')
                for q, val in hits[-1:]:
                    if val == ('p', STR, 0): r.ob(True, wh, fn, ''); continue
                    if not is_ptr(val): r.ob(None, wh, fn, 'stored element'); continue
                    whole_string(r, c, I, s2, val, ('p', STR, 0), wh, fn, tr)
        elif role == 'append':
            F = s2.mon.get('fmt')
            if F is None: r.ob(None, wh, fn, 'how text is formatted'); continue
            n, rr, off = F
            r.ob(prove(c, s2, lambda t: le(t, add(rr, 1), n), [n, rr]), wh, fn, 'text of %s characters is cut to a room of %s bytes' % (T.show(rr), T.show(n)), tr, fn + '-cut')
            r.ob(prove(c, s2, lambda t: eq(t, p, add(pos, rr)), [p, pos, rr]), wh, fn, 'appending %s characters moves the position from %s to %s' % (T.show(rr), T.show(pos), T.show(p)), tr, fn + '-step')
            r.ob(prove(c, s2, lambda t: eq(t, off, pos), [off, pos]), wh, fn, 'text is stored at %s instead of the old position %s' % (T.show(off), T.show(pos)), tr, fn + '-where')
        elif role == 'extract':
            if not is_ptr(v): r.ob(None, wh, fn, 'extracted text'); continue
            extract(r, c, I, s2, v, b, p, pos, wh, fn, tr)
        elif role == 'size':
            if is_num(v): r.ob(prove(c, s2, lambda t: eq(t, v, pos), [v, pos]), wh, fn, 'reports %s elements, %s are in use' % (T.show(v), T.show(pos)), tr, fn + '-size')
        elif role == 'get':
            if v == NULL or not is_ptr(v): continue
            i = args[1 - idx]
            r.ob(prove(c, s2, lambda t: False if False in (le(t, 0, i), le(t, add(i, 1), pos)) else True if le(t, 0, i) is True and le(t, add(i, 1), pos) is True else None, [i, pos]), wh, fn, 'an element is returned for an index out of range', tr, fn + '-range')
        if role in ('extract', 'size', 'get', None):
            r.ob(prove(c, s2, lambda t: eq(t, p, pos), [p, pos]), wh, fn, 'position changes from %s to %s' % (T.show(pos), T.show(p)), tr, fn + '-pos') if role else None

def sv(st, v): return v if is_num(v) else 0

def whole_string(r, c, I, st, val, src, wh, fn, tr):
    """val is a copy of the whole string src, with its terminator"""
    L = libc.strlen_term(I, st, src)
    z = I.obj_size(st, val[1])
    if z is not None and is_num(z): r.ob(prove(c, st, lambda t: le(t, add(L, 1), z), [L, z]), wh, fn, 'a string of %s characters is kept in %s bytes' % (T.show(L), T.show(z)), tr, fn + '-room')
    cps = [x for x in st.mon.get('cp', ()) if x[0][1] == val[1] and x[1][1] == src[1]]
    if len(cps) != 1:
        n = (st.mem.get(val[1]) or {}).get('#len')
        r.ob(True if n and eq(st, n[0], L) is True else None, wh, fn, 'how the string is copied'); return
    d, q, n = cps[0]
    r.ob(prove(c, st, lambda t: True if eq(t, n, add(L, 1)) is True else False if le(t, n, L) is True else None, [n, L]), wh, fn, 'the copy of a string of %s characters has %s bytes and no terminator' % (T.show(L), T.show(n)), tr, fn + '-terminator') if not term_store(st, val, L) else r.ob(True, wh, fn, '')

def term_store(st, val, off):
    return any(q[1] == val[1] and v == 0 and eq(st, q[2], off) is True for q, v in st.mon.get('st', ()))

def extract(r, c, I, st, v, b, p, pos, wh, fn, tr):
    z = I.obj_size(st, v[1])
    if z is not None and is_num(z): r.ob(prove(c, st, lambda t: le(t, add(pos, 1), z), [pos, z]), wh, fn, 'text of %s characters is extracted into %s bytes' % (T.show(pos), T.show(z)), tr, fn + '-room')
    else: r.ob(None, wh, fn, 'size of the extracted text')
    cps = [x for x in st.mon.get('cp', ()) if x[0][1] == v[1] and x[1][1] == b[1]]
    if len(cps) == 1:
        d, q, n = cps[0]
        r.ob(prove(c, st, lambda t: eq(t, n, pos), [n, pos]) if not (is_num(n) and eq(st, n, add(pos, 1)) is True) else True, wh, fn, '%s of %s characters are extracted' % (T.show(n), T.show(pos)), tr, fn + '-count')
        r.ob(prove(c, st, lambda t: True if eq(t, d[2], 0) is True and eq(t, q[2], 0) is True else False if False in (eq(t, d[2], 0), eq(t, q[2], 0)) else None, [d[2], q[2]]), wh, fn, 'text is extracted from offset %s to offset %s' % (T.show(q[2]), T.show(d[2])), tr, fn + '-from')
    else: r.ob(None, wh, fn, 'how the text is copied')
    ts = [q for q, val in st.mon.get('st', ()) if q[1] == v[1] and val == 0]
    m = st.mem.get(v[1]) or {}
    if any(eq(st, q[2], pos) is True for q in ts) or 'zero' in m: r.ob(True, wh, fn, '')
    elif not cps: r.ob(None, wh, fn, 'terminator')
    elif not ts: r.ob(False, wh, fn, 'the extracted text has no terminator', tr, fn + '-terminator')
    else: r.ob(prove(c, st, lambda t: True if any(eq(t, q[2], pos) is True for q in ts) else False if all(eq(t, q[2], pos) is False for q in ts) else None, [q[2] for q in ts] + [pos]), wh, fn, 'the terminator is at %s, the text has %s characters' % (', '.join(T.show(q[2]) for q in ts), T.show(pos)), tr, fn + '-terminator')

ROLE = {'buffer_reset': 'reset', 'list_reset': 'reset', 'buffer_push': 'push', 'list_append': 'push', 'list_append_direct': 'push', 'buffer_append': 'append',
        'buffer_extract': 'extract', 'buffer_size': 'size', 'list_size': 'size', 'list_get': 'get'}
MUST = ('buffer_create', 'buffer_push', 'buffer_append', 'buffer_extract', 'list_create', 'list_append')

def operations(r):
    P = ir.Program(build.dump('buffer'))
    todo = []
    for n, f in sorted(P.funcs.items()):
        if f.decl or not f.file.endswith('buffer.h'): continue
        if container_param(f) or f.src in ('buffer_create', 'list_create'): todo.append(f)
    for m in MUST:
        if not any(f.src == m for f in todo): r.inconclusive.append('%s does not exist' % m)
    if not todo: raise build.Broken('src/buffer.h defines no container operation')
    for f in todo: analyse(P, r, f, ROLE)
    return P, {f.src for f in todo}

def others(P, r, known):
    """functions that change the fields of a container themselves"""
    fields = {}
    seen = 0
    for n, f in sorted(P.funcs.items()):
        if f.decl or f.src in known or f.src in ('buffer_create', 'list_create'): continue
        cp = container_param(f)
        if cp is None: continue
        seen += 1
        # a helper outside buffer.h that takes a container: it is analysed as an operation of its own when it is a leaf
        if cp[2] == 1 and not any(I.op == 'call' and I.d.get('callee', ['x'])[0] == 'f' and not I.d['callee'][1].startswith('llvm.') and P.funcs.get(I.d['callee'][1]) is not None and not P.funcs[I.d['callee'][1]].decl for b in f.blocks for I in b):
            analyse(P, r, f, {})
    r.coverage['other functions with a container parameter'] = seen

# ---- the input block of a stream
STREAM = ('ext', 'stream')
class Inp(Buf):
    def __init__(s, P, entry):
        Buf.__init__(s, P, entry)
        for n in ('read', 'recv'): s.models[n] = s.rw
    def env(s, k): return k[0] in ('env', 'strlen') or (k[0] == 'sym' and k[1][-1] == 'got')
    def rw(s, I, st, fr, ins, args):
        n = I.num(st, args[2], (fr.uid, ins.id, 'n'))
        p = args[1]
        a, b = P_range(s.prog, st, p)
        if is_ptr(p) and p[1] == STREAM:
            off, size = s.prog.field('message_stream', 'buffer')
            hi = prove(s, st, lambda t: le(t, add(p[2], n), off + size), [p[2], n])
            lo = prove(s, st, lambda t: le(t, off, p[2]), [p[2]])
            if False in (hi, lo): s.rep(I, st, fr, ins, 'oob', 'reading up to %s bytes to offset %s of an input block of %s bytes' % (T.show(n), T.show(sub(p[2], off)), size))
            elif None in (hi, lo): s.unproved.setdefault((fr.f.where(ins), fr.f.src), (T.show(p[2]), T.show(n), str(size)))
            else: s.accesses['proved'] += 1
        v = I.fresh(st, (fr.uid, ins.id, 'got'), -1, BIG)
        assume_le(st, v, n)
        return [(st, v)]
    def on_access(s, I, st, fr, ins, p, n, k):
        if is_ptr(p) and p[1] == STREAM:
            off, size = s.prog.field('message_stream', 'buffer')
            if is_int(p[2]) and not off <= p[2] < off + size: return
            hi = prove(s, st, lambda t: le(t, add(p[2], n), off + size), [p[2], n]); lo = prove(s, st, lambda t: le(t, off, p[2]), [p[2]])
            if k == 'read':
                ln = (st.mem.get(STREAM) or {}).get(s.prog.field('message_stream', 'buffer_length')[0])
                if ln and is_num(ln[0]):
                    ok = prove(s, st, lambda t: le(t, add(sub(p[2], off), n), ln[0]), [p[2], ln[0]])
                    if ok is False: s.rep(I, st, fr, ins, 'oob', 'byte %s of the input block is read, %s have been received' % (T.show(sub(p[2], off)), T.show(ln[0])))
            if False in (hi, lo): s.rep(I, st, fr, ins, 'oob', '%s at offset %s of an input block of %s bytes' % (k, T.show(sub(p[2], off)), size))
            elif None in (hi, lo): s.unproved.setdefault((fr.f.where(ins), fr.f.src), (T.show(p[2]), T.show(n), str(size)))
            else: s.accesses['proved'] += 1
            return
        Buf.on_access(s, I, st, fr, ins, p, n, k)

def P_range(P, st, p): return None, None

def inputs(P, r):
    try: off, size = P.field('message_stream', 'buffer'); g = {n: P.field('message_stream', n) for n in ('buffer_position', 'buffer_length', 'flags')}
    except KeyError: r.inconclusive.append('the stream has no input block'); return
    offs = {g['buffer_position'][0], g['buffer_length'][0]}
    for n, f in sorted(P.funcs.items()):
        if f.decl or not any(ptype(f, i) == 'message_stream*' for i in range(f.nargs)): continue
        direct = any(I.op in ('call', 'invoke') and I.d.get('callee', [''])[0] == 'f' and I.d['callee'][1] in ('read', 'recv') for b in f.blocks for I in b)
        if not direct and f.src != 'read_character': continue
        c = Inp(P, f.src); st = State(); st.mon = {}
        pos, ln = atom(st, 'next byte', 0, size), atom(st, 'bytes received', -1, size)
        # invariant: next <= received, unless nothing (0) or an error (-1) came last
        assume_le(st, pos, add(ln, 1)) if False else None
        st.objs[STREAM] = ('ext', P.didx['message_stream']['size'], 'ext', 'stream')
        st.mem[STREAM] = {g['buffer_position'][0]: (pos, 4), g['buffer_length'][0]: (ln, 4)}
        st.roots = (frozenset([STREAM]),)
        args = []
        for i, a in enumerate(f.args): args.append(('p', STREAM, 0) if ptype(f, i) == 'message_stream*' else ('p', ('ext', 'arg', i), 0) if a[1] == 'ptr' else atom(st, 'number %d' % i, -(1 << 31), (1 << 31) - 1))
        I = Interp(P, c); wh = '%s:%s' % (ir.short(f.file), f.line)
        try: outs = I.call_function(f, st, args, 'API', 0, ())
        except Budget: r.inconclusive.append('%s: analysis did not finish' % f.src); continue
        for x in c.reports.values():
            if x.kind == 'oob': r.ob(False, x.where, x.func, '%s: %s' % (f.src, x.what), x.trace, '%s-%s' % (f.src, x.kind))
        for k, v in c.unproved.items(): r.ob(None, k[0], k[1], '%s: access at %s of %s bytes in %s' % ((f.src,) + v))
        for k in range(c.accesses['proved']): r.ob(True, wh, f.src, '')
        r.coverage.setdefault('input block', {})[f.src] = c.accesses['proved']
        for s2, v, kk in outs:
            if kk != 'ret': continue
            m = s2.mem.get(STREAM) or {}
            p, l = m.get(g['buffer_position'][0]), m.get(g['buffer_length'][0])
            if not (p and l and is_num(p[0]) and is_num(l[0])): r.ob(None, wh, f.src, 'position in the input block'); continue
            p, l = p[0], l[0]; tr = show_trace(s2.notes(6))
            r.ob(prove(c, s2, lambda t: le(t, 0, p), [p]), wh, f.src, 'the next byte of the input block is %s' % T.show(p), tr, f.src + '-next')
            r.ob(prove(c, s2, lambda t: le(t, l, size), [l]), wh, f.src, '%s bytes received in a block of %s' % (T.show(l), size), tr, f.src + '-received')

def run(pid, tier):
    r = Result('Each operation of the growing buffers and string lists (src/buffer.h, all of them, used or not) is interpreted abstractly on its own from the invariant 0 <= position <= size <= block, with position, size, index, string length and formatted length as unknowns. Rule: every access lies in the block, the invariant holds again at every exit, the position moves by exactly what was appended, formatted text is never cut, what is extracted or copied ends with its terminator. The input block of a stream is treated alike in every function that fills or reads it.')
    P, known = operations(r)
    Q = ir.Program(build.dump('core'))
    others(Q, r, known)
    inputs(Q, r)
    r.assumptions = ['allocation succeeds', 'sizes stay below 2^29', 'formatting does not fail']
    r.sample({'rule': 'invariant kept by every operation', 'operations': sorted(known)})
    return r
if __name__ == '__main__':
    r = run('M03', 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations: print(v.text())
    for i in r.inconclusive: print('?', i)
