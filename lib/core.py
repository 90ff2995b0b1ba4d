"""Abstract interpretation of the C library's session layer (src/trax.c) against models of its lower layers.

The lower layers (message reader/writer, property map, region and image codecs, string lists) are replaced by the
contracts their own checks establish (W*, M03, M04, D01, D05); every other function of the repository is inlined, so
that extracting or merging helper functions does not matter."""
import re, subprocess, os
import absint, libc, build, ir, terms_eval
import terms as T
from terms import *
from absint import Client, Interp, State, Budget, bounds, eq, le, lb, ub, assume_eq, assume_ne, assume_le, refine, band, excl

H = ('ext', 'handle')
GHOST = ('ext', 'ghost')

_consts = None
def consts():
    """integer macros of the public header and of message.h, as the compiler sees them"""
    global _consts
    if _consts is None:
        src = '#include "trax.h"\n#include "message.h"\n#include "region.h"\n'
        out = subprocess.run(['clang-18', '-E', '-dM', '-x', 'c', '-', '-I%s/include' % build.REPO, '-I%s/src' % build.REPO],
                             input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if out.returncode: raise build.Broken('headers do not preprocess: ' + out.stderr[-2000:])
        d = {}
        for l in out.stdout.splitlines():
            m = re.match(r'#define (\w+) +(.+)$', l)
            if m: d[m.group(1)] = m.group(2)
        r = {}
        for k in d:
            if not k.startswith(('TRAX_', 'REGION_')): continue
            e = d[k]
            for _ in range(6):
                e = re.sub(r'\b([A-Z_][A-Z0-9_]+)\b', lambda m: '(' + d[m.group(1)] + ')' if m.group(1) in d else m.group(1), e)
            try:
                v = eval(re.sub(r'\b0+(\d)', r'\1', e), {})
                if isinstance(v, int): r[k] = v
            except Exception: pass
        for k in ('TRAX_ERROR', 'TRAX_OK', 'TRAX_HELLO', 'TRAX_INITIALIZE', 'TRAX_FRAME', 'TRAX_QUIT', 'TRAX_STATE', 'TRAX_FLAG_TERMINATED', 'TRAX_FLAG_VALID', 'TRAX_FLAG_SERVER', 'TRAX_CHANNELS'):
            if k not in r: raise build.Broken('constant %s is gone' % k)
        _consts = r
    return _consts

def ghost(st, k): return st.mem[GHOST][k][0]
def ghost_inc(st, k):
    m = dict(st.mem[GHOST]); m[k] = (add(m[k][0], 1), 4); st.mem[GHOST] = m

# ghost counters
G_STATE_W, G_INIT_W, G_FRAME_W, G_QUIT_W, G_READS, G_INIT_R, G_OTHER_W = 0, 8, 16, 24, 32, 40, 48
GHOSTS = (G_STATE_W, G_INIT_W, G_FRAME_W, G_QUIT_W, G_READS, G_INIT_R, G_OTHER_W)

class Report(object):
    __slots__ = ('kind', 'where', 'func', 'what', 'trace', 'stack', 'entry')
    def __init__(s, kind, where, func, what, trace, stack, entry):
        s.kind = kind; s.where = where; s.func = func; s.what = what; s.trace = trace; s.stack = stack; s.entry = entry
    def key(s): return (s.kind, s.where, s.what)
    def text(s):
        return '%s at %s in %s: %s [entry %s%s]' % (s.kind, s.where, s.func, s.what, s.entry, (' via ' + ' > '.join(s.stack)) if s.stack else '')

def show_trace(L):
    out = []
    for t in L:
        if isinstance(t, tuple): out.append('%s %s -> %s' % (t[0], T.show(t[1]) if not isinstance(t[1], str) else t[1], 'taken' if t[2] else 'not taken'))
        else: out.append(t)
    return out

class Base(Client):
    """collects memory-safety reports"""
    models = dict(libc.MODELS)
    entry = ''
    def __init__(s):
        s.reports = {}
        s.nonnull = set()       # objects whose pointer elements are never null
        s.accesses = {'proved': 0, 'unproved': 0}
        s.unproved = {}
    def rep(s, I, st, fr, ins, kind, what):
        w = fr.f.where(ins) if ins is not None else fr.f.where(fr.f.blocks[0][0])
        r = Report(kind, w, fr.f.src, what, show_trace(st.notes()), list(I.callstack[1:]), s.entry)
        s.reports.setdefault(r.key(), r)
    def on_null(s, I, st, fr, ins, p, k): s.rep(I, st, fr, ins, 'null', 'null pointer is used (%s)' % k)
    def on_freed(s, I, st, fr, ins, p, k): s.rep(I, st, fr, ins, 'freed', 'freed memory is used (%s)' % k)
    def on_undef(s, I, st, fr, ins, w): s.rep(I, st, fr, ins, 'undef', 'value that was never set is used (%s)' % w)
    def on_leak(s, I, st, o, w):
        r = Report('leak', w, I.callstack[-1] if I.callstack else '', 'memory allocated at %s is lost' % st.objs[o][3], show_trace(st.notes()), list(I.callstack[1:]), s.entry)
        s.reports.setdefault(r.key(), r)
    def on_assert(s, I, st, fr, ins, e): s.rep(I, st, fr, ins, 'assert', 'assertion can fail: %s' % (e.decode() if isinstance(e, bytes) else e))
    def on_badfree(s, I, st, fr, ins, p): s.rep(I, st, fr, ins, 'badfree', 'pointer that is not the start of a heap block is freed')
    def on_load(s, I, st, fr, ins, p, v):
        if is_ptr(v) and v[1][0] == 'D' and (p[1] in s.nonnull): assume_ne(st, v[1][1], 0)
        return v
    def on_access(s, I, st, fr, ins, p, n, k):
        if not is_ptr(p): return
        z = I.obj_size(st, p[1])
        if z is None or not is_num(z) or not is_num(n): return
        hi = le(st, add(p[2], n), z); lo = le(st, 0, p[2])
        if hi is True and lo is True: s.accesses['proved'] += 1; return
        s.accesses['unproved'] += 1
        if False in (hi, lo): s.rep(I, st, fr, ins, 'oob', '%s of %s bytes at offset %s of a block of %s bytes' % (k, T.show(n), T.show(p[2]), T.show(z)))
        else:
            s.unproved.setdefault((fr.f.where(ins), fr.f.src), (T.show(p[2]), T.show(n), T.show(z)))

def refuted(st, pred, exprs, ok):
    """False when some values of the amounts the environment determines (ok) that satisfy the constraints of the path
    make pred false; otherwise None"""
    A = set()
    for e in exprs:
        if not is_num(e): return None
        A |= T.atoms_of(e)
    for rnd in range(3):
        for f in st.facts:
            fa = T.atoms_of(f)
            if fa & A: A |= fa
    derived = [a for a in A if not ok(T.atom_key(a)) and T.atom_key(a)[0] in ('bits', 'op')]
    for a in derived:
        A.discard(a); A |= {x for x in T.deep_atoms(a) if x != a and T.atom_key(x)[0] not in ('bits', 'op')}
    A = sorted(A)
    if not A or len(A) > 5 or any(not ok(T.atom_key(a)) for a in A): return None
    env = {}
    def go(i, s):
        if i == len(A):
            for a in derived:
                e = dict(env); v = terms_eval.evala(a, e)
                if v is None or not absint.assume_eq(s, ('P', (((a,), 1),)), v): return False
            return pred(s) is False
        x = ('P', (((A[i],), 1),))
        lo, hi = absint.bounds(s, x)
        c = []
        for k in (lo, hi, 0, 1, 2, 3, lo + 1 if lo > -1e9 else 0, hi - 1 if hi < 1e9 else 0, 100):
            if k not in (float('inf'), -float('inf')) and lo <= k <= hi and k not in c: c.append(k)
        for k in c:
            t = s.copy()
            if absint.eq(t, x, int(k)) is False: continue
            env[A[i]] = int(k)
            if absint.assume_eq(t, x, int(k)) and go(i + 1, t): return True
        return False
    return False if go(0, st.copy()) else None

def refuted_truth(st, v, want, ok):
    """False when v, a truth value computed by a comparison of amounts the environment determines (ok), can differ from
    want; otherwise None"""
    x = T.single_atom(v) if is_num(v) else None
    k = T.atom_key(x) if x is not None else None
    if k is None or k[0] != 'cmp': return refuted(st, lambda t: None if absint.eq(t, v, 0) is None else (not absint.eq(t, v, 0)) == want, (v,), ok)
    def pred(t):
        a = absint.assume_cmp(t.copy(), k[1], k[2], k[3], True); b = absint.assume_cmp(t.copy(), k[1], k[2], k[3], False)
        return None if bool(a) == bool(b) else bool(a) == want
    return refuted(st, pred, (k[2], k[3]), ok)

# ------------------------------------------------------------------------------------------------ models
_reach = {}
def reaches(prog, f, head=None, target='read_message', seen=None):
    """does the loop at this head (or the function) contain a call of target"""
    k = (f.name, head)
    if k in _reach: return _reach[k]
    _reach[k] = False
    r = False
    for b, B in enumerate(f.blocks):
        if head is not None and b not in f.loops[head]: continue
        for I in B:
            if I.op not in ('call', 'invoke'): continue
            c = I.d.get('callee')
            if not c or c[0] != 'f': continue
            if c[1] == target: r = True; break
            g = prog.funcs.get(c[1])
            if g is not None and not g.decl and reaches(prog, g, None, target): r = True; break
        if r: break
    _reach[k] = r
    return r

class Session(Base):
    """session layer: models for everything below it"""
    part_limit = 3
    steps = 250000
    def __init__(s, prog, role):
        Base.__init__(s)
        s.prog = prog; s.role = role; s.C = consts()
        s.f_flags = prog.field('trax_handle', 'flags'); s.f_stream = prog.field('trax_handle', 'stream')
        s.f_objects = prog.field('trax_handle', 'objects'); s.f_error = prog.field('trax_handle', 'error')
        s.f_meta = prog.field('trax_handle', 'metadata'); s.f_version = prog.field('trax_handle', 'version')
        s.l_buf = prog.field('string_list', 'buffer'); s.l_pos = prog.field('string_list', 'position'); s.l_size = prog.field('string_list', 'size')
        s.i_type = prog.field('trax_image', 'type'); s.i_data = prog.field('trax_image', 'data'); s.i_size = prog.didx['trax_image']['size']
        s.models = dict(libc.MODELS)
        for n in dir(s):
            if n.startswith('m_'): s.models[n[2:]] = getattr(s, n)
        s.events = []           # (kind, where, detail)
        s.alive_run = None
        s.viol = {}
        s.obligations = {}

    def check(s, prop, ok, I, st, fr, ins, what, where=None):
        """one obligation of a property; ok: True/False/None"""
        o = s.obligations.setdefault(prop, [0, 0, 0])
        o[0 if ok is True else 1 if ok is False else 2] += 1
        if ok is False:
            w = where or (fr.f.where(ins) if ins is not None else '?')
            r = Report(prop, w, fr.f.src if fr else s.entry, what, show_trace(st.notes()), list(I.callstack[1:]), s.entry)
            s.viol.setdefault((prop,) + r.key(), r)
        elif ok is None:
            s.unproved.setdefault((prop, s.entry, what), where or '')

    # --- handle state
    def flags(s, st, o=H):
        m = st.mem.get(o) or {}
        c = m.get(s.f_flags[0])
        return c[0] if c else None
    def on_back(s, I, st, fr, head):
        # the number of arguments of a message is forgotten when the loop that reads messages goes round
        if reaches(s.prog, fr.f, head):
            st.mon.pop('na', None)
            if st.mon.get('rd') not in (None, s.C['TRAX_QUIT'], s.C['TRAX_ERROR']): st.mon['rd'] = 0
            st.mem[GHOST] = dict(st.mem[GHOST]); st.mem[GHOST][56] = (-1, 4)
    def mon_key(s, st):
        return Client.mon_key(s, st) + ((s.bit(st, s.C['TRAX_FLAG_TERMINATED']),) if s.has_handle else ())
    def bit(s, st, b):
        """True/False/None: flag bit b of the handle"""
        v = s.flags(st)
        if v is None: return None
        if not is_num(v): return None
        x = band(st, v, b)
        r = eq(st, x, 0)
        return None if r is None else not r

    # --- string lists: opaque, exact length
    def m_list_create(s, I, st, fr, ins, args):
        st0 = libc.m_malloc(I, st, fr, ins, [s.prog.didx['string_list']['size']])[0]
        o = st0[1][1]
        b = I.newobj(st, 'heap', ('listbuf',) + libc.site(fr, ins), None)
        st.objs[b] = ('heap', None, st.objs[b][2], fr.f.where(ins))
        st.mem[o] = {s.l_buf[0]: (('p', b, 0), 8), s.l_pos[0]: (0, 4), s.l_size[0]: (1, 4), '#list': (1, 0)}
        return [(st, ('p', o, 0))]
    def _list(s, I, st, fr, ins, p):
        p = I.check_ptr(st, fr, ins, p, 'read')
        return p
    def _append(s, I, st, fr, ins, args, copy):
        p = s._list(I, st, fr, ins, args[0])
        if p is None: return []
        e = I.check_ptr(st, fr, ins, args[1], 'read')
        if e is None: return []
        o = p[1]
        m = dict(st.mem.get(o) or {})
        pos = m.get(s.l_pos[0], (None, 4))[0]
        if pos is None: pos = I.fresh(st, (fr.uid, ins.id, 'pos'), 0)
        bp = m.get(s.l_buf[0])
        if not copy and is_ptr(e) and e[1] in st.objs and st.objs[e[1]][2] == 'live' and st.objs[e[1]][0] == 'heap':
            x = st.objs[e[1]]; st.objs[e[1]] = (x[0], x[1], ('owned', o), x[3])       # the list releases it
        if bp and is_ptr(bp[0]): st.mem[bp[0][1]] = {'*': True}; s.nonnull.add(bp[0][1])
        m = dict(st.mem.get(o) or {})
        m[s.l_pos[0]] = (add(pos, 1), 4)
        st.mem[o] = m
        return [(st, None)]
    def m_list_append(s, I, st, fr, ins, args): return s._append(I, st, fr, ins, args, True)
    def m_list_append_direct(s, I, st, fr, ins, args): return s._append(I, st, fr, ins, args, False)
    def m_list_destroy(s, I, st, fr, ins, args):
        pp = I.check_ptr(st, fr, ins, args[0], 'read')
        if pp is None: return []
        p = I.load(st, fr, ins, pp, 'ptr', 8)
        if p is None: return []
        if p == UNDEF: s.on_undef(I, st, fr, ins, 'list'); return []
        n = I.null_state(st, p)
        if n is True: return [(st, None)]
        if is_ptr(p):
            if I.obj_status(st, p[1]) == 'freed': s.on_freed(I, st, fr, ins, p, 'free'); return []
            st.mon.pop('na', None)
            b = (st.mem.get(p[1]) or {}).get(s.l_buf[0])
            for q, x in list(st.objs.items()):
                if x[2] == ('owned', p[1]): st.objs[q] = x[:2] + ('freed', fr.f.where(ins))
            if b and is_ptr(b[0]) and b[0][1] in st.objs:
                st.objs[b[0][1]] = st.objs[b[0][1]][:2] + ('freed', fr.f.where(ins))
                st.mem.pop(b[0][1], None)
            if p[1] in st.objs:
                st.objs[p[1]] = st.objs[p[1]][:2] + ('freed', fr.f.where(ins))
                st.mem.pop(p[1], None)
        I.setmem(st, pp[1], pp[2], NULL, 8)
        return [(st, None)]
    def m_list_reset(s, I, st, fr, ins, args):
        p = s._list(I, st, fr, ins, args[0])
        if p is None: return []
        I.setmem(st, p[1], s.l_pos[0], 0, 4)
        return [(st, None)]

    # --- messages
    def stream_ok(s, I, st, fr, ins, p):
        p = I.check_ptr(st, fr, ins, p, 'read')
        return p
    def m_read_message(s, I, st, fr, ins, args):
        if s.stream_ok(I, st, fr, ins, args[0]) is None: return []
        l = s._list(I, st, fr, ins, args[2])
        if l is None: return []
        p = I.check_ptr(st, fr, ins, args[3], 'read')
        if p is None: return []
        C = s.C
        s.events.append(('read', fr.f.where(ins)))
        s.on_event(I, st, fr, ins, 'read', None)
        ghost_inc(st, G_READS)
        st.cnt['smv'] = st.cnt.get('smv', 0) + 1
        nargs = I.fresh(st, (fr.uid, ins.id, 'nargs'), 0, 1 << 20)
        o = l[1]
        m = dict(st.mem.get(o) or {})
        bp = m.get(s.l_buf[0])
        b = bp[0][1] if bp and is_ptr(bp[0]) else None
        m[s.l_pos[0]] = (nargs, 4)
        st.mem[o] = m
        if b is not None:
            st.mem[b] = {'*': True}
            x = st.objs.get(b)
            if x: st.objs[b] = (x[0], mul(nargs, 8), x[2], x[3])
            s.nonnull.add(b)
        out = []
        for nm in ('TRAX_ERROR', 'TRAX_HELLO', 'TRAX_INITIALIZE', 'TRAX_FRAME', 'TRAX_QUIT', 'TRAX_STATE'):
            # the number of arguments decides what may be read: small numbers are told apart
            for na in ((None,) if nm == 'TRAX_ERROR' else (0, 1, 2, 3, 4, None)):
                s2 = st.copy()
                s2.mem[GHOST] = dict(s2.mem[GHOST])
                if nm == 'TRAX_ERROR': s2.note('%s: peer sends nothing (end of stream)' % fr.f.where(ins))
                else: s2.note('%s: peer sends %s with %s arguments' % (fr.f.where(ins), nm, '5 or more' if na is None else na))
                s2.mon['rd'] = C[nm]; s2.mon['na'] = na
                if nm != 'TRAX_ERROR':
                    if na is None: refine(s2, single_atom(nargs), 5, 1 << 20)
                    elif not assume_eq(s2, nargs, na): continue
                v = nargs if na is None else na
                s2.mem[GHOST][56] = (v, 4)
                if na is not None:
                    m3 = dict(s2.mem.get(o) or {}); m3[s.l_pos[0]] = (na, 4); s2.mem[o] = m3
                    if b is not None:
                        x = s2.objs.get(b)
                        if x: s2.objs[b] = (x[0], na * 8, x[2], x[3])
                if nm == 'TRAX_INITIALIZE':
                    # an initialize message without arguments resets, one with arguments adds
                    if na == 0: s2.mon['reset'] = True
                    else: ghost_inc(s2, G_INIT_R)
                out.append((s2, C[nm]))
        return out
    def m_write_message(s, I, st, fr, ins, args):
        if s.stream_ok(I, st, fr, ins, args[0]) is None: return []
        for k in (3, 4):
            a = args[k]
            if a == UNDEF: s.on_undef(I, st, fr, ins, 'message contents'); return []
            a = I.as_ptr(a) if not is_ptr(a) else a
            if is_ptr(a) and I.obj_status(st, a[1]) == 'freed': s.on_freed(I, st, fr, ins, a, 'read'); return []
        ty = args[2]
        s.events.append(('write', fr.f.where(ins)))
        n = None
        if is_ptr(args[3]):
            c = (st.mem.get(args[3][1]) or {}).get(s.l_pos[0])
            n = c[0] if c else None
        elif args[3] == NULL: n = 0
        s.on_event(I, st, fr, ins, 'write', ty, n)
        C = s.C
        k = {C['TRAX_STATE']: G_STATE_W, C['TRAX_FRAME']: G_FRAME_W, C['TRAX_QUIT']: G_QUIT_W}.get(ty, G_OTHER_W)
        if ty == C['TRAX_INITIALIZE']: k = G_INIT_W if n != 0 else None
        if ty == C['TRAX_INITIALIZE'] and n == 0: st.mon['resetw'] = True
        if k is not None: ghost_inc(st, k)
        st.mon['w'] = True
        st.note('%s: writes message type %s' % (fr.f.where(ins), T.show(ty)))
        return [(st, None)]
    def on_event(s, I, st, fr, ins, kind, ty, n=None):
        """S01/S02 at every message"""
        if not s.has_handle: return
        C = s.C
        t = s.bit(st, C['TRAX_FLAG_TERMINATED'])
        if kind == 'write' and ty == C['TRAX_QUIT']:
            if s.alive_run is False:
                s.check('S02', False, I, st, fr, ins, 'a quit message is written on a session that has ended already')
            if s.alive_run is True:
                q = ghost(st, G_QUIT_W)
                s.check('S02', q == 0, I, st, fr, ins, 'a second quit message is written in the same call')
                s.check('S02', st.mon.get('rd') != C['TRAX_QUIT'], I, st, fr, ins, 'a received quit is answered with quit')
        else:
            s.check('S01', t is False if t is not None else None, I, st, fr, ins, 'the stream is %s although the session has ended' % ('read' if kind == 'read' else 'written'))
            if s.alive_run: s.check('S02', ghost(st, G_QUIT_W) == 0, I, st, fr, ins, 'a message is exchanged after quit was sent')
        if st.mon.get('rd') == C['TRAX_QUIT'] and kind == 'read':
            s.check('S01', False, I, st, fr, ins, 'the stream is read again after a quit message')
        s.event(I, st, fr, ins, kind, ty, n)
    def event(s, I, st, fr, ins, kind, ty, n): pass
    has_handle = False

    def _newstream(s, I, st, fr, ins, nullable):
        o = I.newobj(st, 'heap', libc.site(fr, ins), s.prog.didx['message_stream']['size'])
        st.objs[o] = st.objs[o][:3] + (fr.f.where(ins),)
        st.mem[o] = {'*': True}
        out = []
        if nullable: out.append((st.copy(), NULL)); out[0][0].objs.pop(o, None)
        out.append((st, ('p', o, 0)))
        return out
    def m_create_message_stream_file(s, I, st, fr, ins, args): return s._newstream(I, st, fr, ins, False)
    def m_create_message_stream_socket_connect(s, I, st, fr, ins, args): return s._newstream(I, st, fr, ins, True)
    def m_create_message_stream_socket_accept(s, I, st, fr, ins, args): return s._newstream(I, st, fr, ins, True)
    def m_destroy_message_stream(s, I, st, fr, ins, args):
        return s._release(I, st, fr, ins, args, None)

    def _release(s, I, st, fr, ins, args, fields, null_ok=False):
        pp = I.check_ptr(st, fr, ins, args[0], 'read')
        if pp is None: return []
        p = I.load(st, fr, ins, pp, 'ptr', 8)
        if p is None: return []
        if p == UNDEF: s.on_undef(I, st, fr, ins, 'released object'); return []
        n = I.null_state(st, p)
        if n is True:
            if null_ok: return [(st, None)]
            s.on_null(I, st, fr, ins, p, 'read'); return []
        if is_ptr(p):
            if I.obj_status(st, p[1]) == 'freed': s.on_freed(I, st, fr, ins, p, 'free'); return []
            r = st.objs.get(p[1])
            if r and r[2] == 'escaped' and p[1][2] == 3: pass          # summary of many blocks
            elif r and r[2].__class__ is tuple: s.on_freed(I, st, fr, ins, p, 'free'); return []
            elif r and r[0] == 'heap':
                for k, x in list((st.mem.get(p[1]) or {}).items()):
                    if isinstance(x, tuple) and is_ptr(x[0]) and x[0][1] in st.objs and st.objs[x[0][1]][2] == 'live':
                        z = st.objs[x[0][1]]; st.objs[x[0][1]] = (z[0], z[1], 'freed', fr.f.where(ins))
                st.objs[p[1]] = (r[0], r[1], 'freed', fr.f.where(ins)); st.mem.pop(p[1], None)
            elif p[1][0] == 'D' and p[2] == 0:
                st.objs[p[1]] = ('ext', None, 'freed', fr.f.where(ins)); st.mem.pop(p[1], None)
        I.setmem(st, pp[1], pp[2], NULL, 8)
        return [(st, None)]

    # --- property maps
    def m_sm_new(s, I, st, fr, ins, args):
        o = I.newobj(st, 'heap', libc.site(fr, ins), None)
        st.objs[o] = ('heap', None, st.objs[o][2], fr.f.where(ins))
        st.mem[o] = {'*': True}
        return [(st, ('p', o, 0))]
    def m_sm_delete(s, I, st, fr, ins, args):
        if args[0] == NULL: return [(st, None)]
        return libc.m_free(I, st, fr, ins, args)
    def _map(s, I, st, fr, ins, p):
        return I.check_ptr(st, fr, ins, p, 'read')
    def m_sm_put(s, I, st, fr, ins, args):
        m = s._map(I, st, fr, ins, args[0])
        if m is None: return []
        for a in args[1:3]:
            if I.check_ptr(st, fr, ins, a, 'read') is None: return []
        st.cnt['smv'] = st.cnt.get('smv', 0) + 1
        return [(st, 1)]
    def m_sm_get(s, I, st, fr, ins, args):
        m = s._map(I, st, fr, ins, args[0])
        if m is None: return []
        k = I.check_ptr(st, fr, ins, args[1], 'read')
        if k is None: return []
        v = T.A(('smget', m, k, st.cnt.get('smv', 0)))
        refine(st, single_atom(v), 0, 1 << 30)
        if args[2] != NULL:
            d = I.check_ptr(st, fr, ins, args[2], 'write')
            if d is None: return []
            n = I.num(st, args[3], (fr.uid, ins.id, 'n'))
            s.on_access(I, st, fr, ins, d, n, 'write')
            if is_ptr(d): st.mem[d[1]] = {'*': True}
        return [(st, v)]
    def m_sm_exists(s, I, st, fr, ins, args):
        m = s._map(I, st, fr, ins, args[0])
        if m is None: return []
        return [(st, I.fresh(st, (fr.uid, ins.id, 'ex'), 0, 1))]
    def m_sm_get_count(s, I, st, fr, ins, args):
        m = s._map(I, st, fr, ins, args[0])
        if m is None: return []
        return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1 << 30))]
    def m_sm_enum(s, I, st, fr, ins, args):
        m = s._map(I, st, fr, ins, args[0])
        if m is None: return []
        st.cnt['smv'] = st.cnt.get('smv', 0) + 1
        return [(st, 1)]
    def m_trax_properties_get_int(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        return [(st, I.fresh(st, (fr.uid, ins.id, 'ret'), -(1 << 31), (1 << 31) - 1))]
    m_trax_properties_get_float = m_trax_properties_get_int
    def m_trax_properties_set(s, I, st, fr, ins, args):
        for a in args[:3]:
            if I.check_ptr(st, fr, ins, a, 'read') is None: return []
        st.cnt['smv'] = st.cnt.get('smv', 0) + 1
        return [(st, None)]
    def m_trax_properties_set_int(s, I, st, fr, ins, args):
        for a in args[:2]:
            if I.check_ptr(st, fr, ins, a, 'read') is None: return []
        return [(st, None)]

    def m_trax_properties_create(s, I, st, fr, ins, args):
        o = I.newobj(st, 'heap', libc.site(fr, ins), s.prog.didx['trax_properties']['size'])
        st.objs[o] = st.objs[o][:3] + (fr.f.where(ins),)
        st.mem[o] = {'*': True}
        return [(st, ('p', o, 0))]
    def m_trax_properties_copy(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'read') is None: return []
        return s.m_trax_properties_create(I, st, fr, ins, args)
    def m_trax_properties_release(s, I, st, fr, ins, args): return s._release(I, st, fr, ins, args, None, null_ok=True)
    def m_trax_properties_enumerate(s, I, st, fr, ins, args):
        for a in (args[0], args[2]):
            if is_ptr(a) and I.obj_status(st, a[1]) == 'freed': s.on_freed(I, st, fr, ins, a, 'read'); return []
        if I.check_ptr(st, fr, ins, args[0], 'read') is None: return []
        a = args[2]
        if is_ptr(a) and a[1][0] == 'stack':
            # what the callback is handed
            for off, x in (st.mem.get(a[1]) or {}).items():
                if isinstance(x, tuple) and (is_ptr(x[0]) or x[0] == NULL):
                    if I.check_ptr(st, fr, ins, x[0], 'write') is None: return []
        st.cnt['smv'] = st.cnt.get('smv', 0) + 1
        return [(st, None)]

    # --- regions
    def region(s, I, st, fr, ins, tag=''):
        o = I.newobj(st, 'heap', ('region', tag) + libc.site(fr, ins), None)
        st.objs[o] = ('heap', None, st.objs[o][2], fr.f.where(ins))
        st.mem[o] = {'*': True}
        return ('p', o, 0)
    def m_region_create_special(s, I, st, fr, ins, args): return [(st, s.region(I, st, fr, ins))]
    m_region_create_rectangle = m_region_create_polygon = m_region_create_mask = m_region_create_special
    def m_region_convert(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'read') is None: return []
        s2 = st.copy()
        return [(st, s.region(I, st, fr, ins)), (s2, NULL)]
    def m_trax_region_clone(s, I, st, fr, ins, args):
        p = I.as_ptr(args[0]) if not is_ptr(args[0]) else args[0]
        n = I.null_state(st, p)
        if n is True: return [(st, NULL)]
        out = []
        if n is None:
            s2 = st.copy()
            if assume_eq(s2, p[1][1], 0): out.append((s2, NULL))
            if not assume_ne(st, p[1][1], 0): return out
        if is_ptr(p) and I.obj_status(st, p[1]) == 'freed': s.on_freed(I, st, fr, ins, p, 'read'); return out
        out.append((st, s.region(I, st, fr, ins)))
        return out
    def m_region_parse(s, I, st, fr, ins, args):
        b = args[0]
        if b == UNDEF: s.on_undef(I, st, fr, ins, 'text'); return []
        d = I.check_ptr(st, fr, ins, args[1], 'write')
        if d is None: return []
        s.on_access(I, st, fr, ins, d, 8, 'write')
        s2 = st.copy()
        I.setmem(s2, d[1], d[2], NULL, 8)
        s2.note('%s: the text is not a region' % fr.f.where(ins))
        r = s.region(I, st, fr, ins)
        I.setmem(st, d[1], d[2], r, 8)
        return [(st, 1), (s2, 0)]
    def m_region_string(s, I, st, fr, ins, args):
        p = I.as_ptr(args[0]) if not is_ptr(args[0]) else args[0]
        if p == UNDEF: s.on_undef(I, st, fr, ins, 'region'); return []
        if p == NULL: return [(st, NULL)]
        if is_ptr(p) and I.obj_status(st, p[1]) == 'freed': s.on_freed(I, st, fr, ins, p, 'read'); return []
        s2 = st.copy()
        s2.note('%s: the region cannot be encoded' % fr.f.where(ins))
        return [(st, s.text(I, st, fr, ins)), (s2, NULL)]
    def m_region_release(s, I, st, fr, ins, args): return s._release(I, st, fr, ins, args, None)
    def text(s, I, st, fr, ins, tag='text'):
        o = I.newobj(st, 'heap', (tag,) + libc.site(fr, ins), None)
        st.objs[o] = ('heap', None, st.objs[o][2], fr.f.where(ins))
        libc.forget_len(st, o)
        st.mem[o] = {'*': True}
        return ('p', o, 0)
    # --- images
    def m_image_encode(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'read') is None: return []
        return [(st, s.text(I, st, fr, ins))]
    def m_image_decode(s, I, st, fr, ins, args):
        b = I.check_ptr(st, fr, ins, args[0], 'read')
        if b is None: return []
        s2 = st.copy(); s2.note('%s: the text is not an image' % fr.f.where(ins))
        o = I.newobj(st, 'heap', libc.site(fr, ins), s.i_size)
        st.objs[o] = ('heap', s.i_size, st.objs[o][2], fr.f.where(ins))
        d = I.newobj(st, 'heap', ('data',) + libc.site(fr, ins), None)
        st.objs[d] = ('heap', None, st.objs[d][2], fr.f.where(ins)); st.mem[d] = {'*': True}
        ty = I.fresh(st, (fr.uid, ins.id, 'type', o[2]), 1, 15)
        st.mem[o] = {s.i_type[0]: (ty, s.i_type[1]), s.i_data[0]: (('p', d, 0), 8), '*': True}
        return [(st, ('p', o, 0)), (s2, NULL)]
    def _formats_decode(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'write') is None: return []
        return [(st, I.fresh(st, (fr.uid, ins.id, 'ret'), -1, 255))]
    m_image_formats_decode = m_region_formats_decode = m_channels_decode = _formats_decode
    def _formats_encode(s, I, st, fr, ins, args):
        d = I.check_ptr(st, fr, ins, args[1], 'write')
        if d is None: return []
        if is_ptr(d): st.mem[d[1]] = {'*': True}
        return [(st, None)]
    m_image_formats_encode = m_region_formats_encode = m_channels_encode = _formats_encode
    # --- object lists
    def olist_fields(s):
        P = s.prog
        return P.field('trax_object_list', 'size'), P.field('trax_object_list', 'regions'), P.field('trax_object_list', 'properties'), P.didx['trax_object_list']['size']
    def m_trax_object_list_create(s, I, st, fr, ins, args):
        fs, frg, fp, sz = s.olist_fields()
        n = I.num(st, args[0], (fr.uid, ins.id, 'n'))
        L = libc.m_malloc(I, st, fr, ins, [sz])[0][1]
        st.objs[L[1]] = st.objs[L[1]][:3] + (fr.f.where(ins),)
        a = I.newobj(st, 'heap', ('regions',) + libc.site(fr, ins), mul(n, 8)); st.objs[a] = st.objs[a][:3] + (fr.f.where(ins),)
        b = I.newobj(st, 'heap', ('props',) + libc.site(fr, ins), mul(n, 8)); st.objs[b] = st.objs[b][:3] + (fr.f.where(ins),)
        st.mem[a] = {'*': True}; st.mem[b] = {'*': True}
        s.nonnull.add(a); s.nonnull.add(b)
        st.mem[L[1]] = {fs[0]: (n, 4), frg[0]: (('p', a, 0), 8), fp[0]: (('p', b, 0), 8)}
        return [(st, L)]
    def m_trax_object_list_release(s, I, st, fr, ins, args):
        if args[0] == NULL: return [(st, None)]
        return s._release(I, st, fr, ins, args, None, null_ok=True)
    def m_trax_object_list_set(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'write') is None: return []
        p = I.as_ptr(args[2]) if not is_ptr(args[2]) else args[2]
        if is_ptr(p) and I.obj_status(st, p[1]) == 'freed': s.on_freed(I, st, fr, ins, p, 'read'); return []
        return [(st, None)]
    def _elem(s, I, st, fr, ins, args, nullable):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        fs = s.olist_fields()[0]
        n = I.load(st, fr, ins, ('p', p[1], add(p[2], fs[0])), 'i32', 4)
        ix = I.num(st, args[1], (fr.uid, ins.id, 'ix'))
        inr = (le(st, 0, ix), le(st, add(ix, 1), n) if is_num(n) else None)
        out = []
        if False in inr: return [(st, NULL)]
        if None in inr:
            s2 = st.copy(); out.append((s2, NULL))
        v = I.fresh(st, (fr.uid, ins.id, 'elem'))
        if not nullable: assume_ne(st, v, 0)
        out.append((st, ('p', ('D', v), 0)))
        return out
    def m_trax_object_list_get(s, I, st, fr, ins, args): return s._elem(I, st, fr, ins, args, True)
    def m_trax_object_list_properties(s, I, st, fr, ins, args): return s._elem(I, st, fr, ins, args, False)

def new_state():
    st = State()
    st.mem[GHOST] = {k: (0, 4) for k in GHOSTS}
    st.mem[GHOST][56] = (-1, 4)
    return st

def run(prog, client, name, st, args):
    f = prog.funcs.get(name)
    if f is None or f.decl: raise build.Broken('function %s is gone' % name)
    client.entry = name
    I = Interp(prog, client)
    try: outs = I.call_function(f, st, args, 'API', 0, ())
    except Budget: return I, None
    return I, outs
