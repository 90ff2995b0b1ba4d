"""D01: a property dictionary is a map.  (Also the memory side of the same functions for M01 and M02.)

The public operations of trax_properties are interpreted abstractly, the hash table inlined, on tables of every small
shape: up to three slots, up to three entries in the slot of the key; the texts of keys and values are unknown.  A
comparison of two key texts splits the path into equal / different, subject to the map invariant (all keys of a table
differ); on every path the outcome must be the one a map gives in each world the comparisons of the path leave open."""
import build, ir, core, absint, libc, buffers
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, UNDEF, eq, le, refine, assume_le, assume_eq, assume_ne
from core import show_trace
from pixels import atom
from buffers import Buf, prove
from result import Result

PROPS = ('ext', 'properties'); KEY = ('ext', 'key'); VALUE = ('ext', 'value'); DATA = ('ext', 'user data')
MAP = ('heap', 'map', 0); BUCKETS = ('heap', 'slots', 0)
def PAIRS(b): return ('heap', ('entries', b), 0)
def K(b, k): return ('heap', ('key', b, k), 0)
def V(b, k): return ('heap', ('value', b, k), 0)
CB = '__user_callback'

class Map(Buf):
    part_limit = 60; max_states = 4000; max_heads = 600; steps = 300000
    def __init__(s, P, entry, shape, h=None, full=True):
        Buf.__init__(s, P, entry)
        s.shape = shape; s.h = h; s.hashed = False
        for n in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp'): s.models[n] = s.cmp
        s.models['strdup'] = s.dup
        s.models[CB] = s.cb
        s.models['strtod'] = s.models['strtol'] = s.models['strtof'] = s.models['atoi'] = s.models['atof'] = s.models['strtoul'] = s.parse
        if h is not None:
            for n in [n for n, f in P.funcs.items() if f.src == 'hash' and not f.decl]: s.models[n] = s.hash
    def hash(s, I, st, fr, ins, a):
        s.hashed = True
        st.mon['hk'] = st.mon.get('hk', frozenset()) | {a[0] == ('p', KEY, 0)}
        return [(st, s.h)]
    def mon_key(s, st): return (st.mon.get('rel', frozenset()), st.mon.get('cb', ()), st.mon.get('hk'), st.mon.get('cp', ()), st.mon.get('unk'), st.mon.get('end'), st.mon.get('put'))
    def who(s, p):
        if p == ('p', KEY, 0): return 'key'
        if is_ptr(p) and p[2] == 0 and p[1][0] == 'heap' and p[1][1].__class__ is tuple and p[1][1][0] == 'key' and p[1][1][1].__class__ is int: return p[1][1][1:]
        return None
    def cmp(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]
        a, b = s.who(args[0]), s.who(args[1])
        if a == 'key' and b == 'key': return [(st, 0)]
        e = b if a == 'key' else a if b == 'key' else None
        if e is None or e == 'key':
            if a is not None and b is not None and nm == 'strcmp': return [(st, 0 if a == b else nonzero(st, (a, b)))]
            return libc.m_strcmp(I, st, fr, ins, args)
        rel = st.mon.get('rel', frozenset())
        kind = 'eq'
        if nm in ('strcasecmp', 'strncasecmp'): kind = 'pre'
        if nm in ('strncmp', 'strncasecmp', 'memcmp'):
            n = I.num(st, args[2], (fr.uid, ins.id, 'n'))
            L, M = libc.strlen_term(I, st, ('p', KEY, 0)), libc.strlen_term(I, st, ('p', K(*e), 0))
            if eq(st, L, M) is True and le(st, L, n) is True: pass
            elif le(st, add(L, 1), n) is True or le(st, add(M, 1), n) is True: pass
            else: kind = 'pre' if kind == 'pre' or is_int(n) or le(st, n, L) is True or le(st, n, M) is True else 'unk'
        if kind == 'unk': st.mon['unk'] = True; return libc.m_strcmp(I, st, fr, ins, args)
        if (e, 'eq') in rel: return [(st, 0)]
        if (e, 'ne') in rel: 
            if kind == 'eq': return [(st, nonzero(st, e))]
        t = st.copy(); out = []
        t.mon['rel'] = rel | {(e, 'ne')} if kind == 'eq' else rel | {(e, 'ne')}
        out.append((t, nonzero(t, e)))
        if kind == 'pre' or not any(r[1] == 'eq' for r in rel):
            t = st.copy(); t.mon['rel'] = rel | {(e, kind)}
            ok = True
            if kind == 'eq': ok = assume_eq(t, libc.strlen_term(I, t, ('p', KEY, 0)), libc.strlen_term(I, t, ('p', K(*e), 0)))
            if ok is not False: out.append((t, 0))
        return out
    def dup(s, I, st, fr, ins, args):
        r = libc.m_strdup(I, st, fr, ins, args)
        for s2, v in r:
            if is_ptr(v) and is_ptr(args[0]): s2.mon['cp'] = s2.mon.get('cp', ()) + ((v, args[0], add(libc.strlen_term(I, s2, args[0]), 1)),)
        return r
    def on_load(s, I, st, fr, ins, p, v):
        # the text of a stored key has a name, as long as it has not been written
        if ins.t == 'i8' and is_ptr(p) and is_int(p[2]) and s.who(('p', p[1], 0)) not in (None, 'key') and not any(is_ptr(q[0]) and q[0][1] == p[1] for q in st.mon.get('cp', ())):
            v = T.A(('init', p[1], p[2], 'i8')); refine(st, single_atom(v), -128, 127)
        return v
    def cb(s, I, st, fr, ins, args):
        st.mon['cb'] = st.mon.get('cb', ()) + (tuple(args),)
        return [(st, None)]
    def fmt(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]
        k = 2 if nm == 'snprintf' else 1
        f = libc.cstr(I, st, args[k]) if nm in ('sprintf', 'snprintf') else None
        if f in LONG:
            n = LONG[f]
            r = T.A(('env', 'formatted', args[k + 1] if len(args) > k + 1 else 0)); refine(st, single_atom(r), 1, n)
            room = I.num(st, args[1], (fr.uid, ins.id, 'n')) if k == 2 else None
            if k == 1: s.on_access(I, st, fr, ins, args[0], add(r, 1), 'write')
            else:
                s.on_access(I, st, fr, ins, args[0], room, 'write')
                if is_int(room) and room <= n: s.rep(I, st, fr, ins, 'oob', 'a number of up to %d characters is cut to a room of %d bytes' % (n, room))
            if is_ptr(args[0]):
                s.wipe(st, args[0][1])
                st.mon['cp'] = st.mon.get('cp', ()) + ((args[0], ('fmt', f, args[k + 1] if len(args) > k + 1 else None), add(r, 1)),)
                libc.setlen(st, args[0][1], add(args[0][2], r))
            return [(st, r)]
        st.mon['unk'] = True
        return Buf.fmt(s, I, st, fr, ins, args)
    def parse(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]
        v = T.A(('env', 'parsed', nm)) 
        p = args[0]
        out = []
        if len(args) > 1 and is_ptr(args[1]) and is_ptr(p):
            L = libc.strlen_term(I, st, p)
            for end in ('all', 'part', 'none'):
                t = st.copy(); t.mon['end'] = end
                off = L if end == 'all' else 0 if end == 'none' else I.fresh(t, (fr.uid, ins.id, 'end'), 1)
                if end == 'part': assume_le(t, off, L)
                if end == 'all' and assume_le(t, 1, L) is False: continue
                if end == 'all': I.setmem(t, p[1], add(p[2], off), 0, 1)
                I.setmem(t, args[1][1], args[1][2], ('p', p[1], add(p[2], off)), 8)
                out.append((t, I.typed(t, v, ins.t, ins.sz)))
            return out
        return [(st, I.typed(st, v, ins.t, ins.sz))]

# longest results: INT_MIN; a float has at most 39 digits before the point
LONG = {b'%d': 11, b'%i': 11, b'%f': 47, b'%g': 13, b'%.9g': 16, b'%.8g': 15}

def nonzero(st, e):
    v = T.A(('env', 'order of keys', e)); refine(st, single_atom(v), -255, 255, 0)
    return v

def layout(P):
    try:
        f = lambda t, n: P.field(t, n)
        L = {'map': f('trax_properties', 'map')[0], 'count': f('StrMap', 'count'), 'buckets': f('StrMap', 'buckets')[0], 'n': f('Bucket', 'count'), 'pairs': f('Bucket', 'pairs')[0],
             'key': f('Pair', 'key')[0], 'value': f('Pair', 'value')[0], 'B': P.didx['Bucket']['size'], 'P': P.didx['Pair']['size'], 'M': P.didx['StrMap']['size']}
        L['plain'] = len(P.didx['Pair']['members']) == 2
        return L
    except KeyError as e: return None

def table(c, P, L, counts, unallocated=True):
    st = State(); st.mon = {}
    N = len(counts)
    st.objs[PROPS] = ('ext', P.didx['trax_properties']['size'], 'ext', 'properties'); st.mem[PROPS] = {L['map']: (('p', MAP, 0), 8)}
    st.objs[MAP] = ('heap', L['M'], 'live', 'table'); st.mem[MAP] = {L['count'][0]: (N, L['count'][1]), L['buckets']: (('p', BUCKETS, 0), 8)}
    st.objs[BUCKETS] = ('heap', N * L['B'], 'live', 'slots'); m = st.mem[BUCKETS] = {}
    I = Interp(P, c)
    def string(o, name):
        st.objs[o] = ('ext', None, 'ext', name)
        ln = libc.strlen_term(I, st, ('p', o, 0))
        if o[0] == 'heap':
            cap = atom(st, name + ' capacity', 1, 1 << 30)
            assume_le(st, add(ln, 1), cap)
            st.objs[o] = ('heap', cap, 'live', name); st.mem[o] = {'*': True}
        else: st.objs[o] = ('ext', add(ln, 1), 'ext', name)
    for b, n in enumerate(counts):
        m[b * L['B'] + L['n'][0]] = (n, L['n'][1])
        m[b * L['B'] + L['pairs']] = (('p', PAIRS(b), 0) if n else NULL, 8)
        if n:
            st.objs[PAIRS(b)] = ('heap', n * L['P'], 'live', 'entries'); q = st.mem[PAIRS(b)] = {}
            for k in range(n):
                string(K(b, k), 'key %d.%d' % (b, k)); string(V(b, k), 'value %d.%d' % (b, k))
                q[k * L['P'] + L['key']] = (('p', K(b, k), 0), 8); q[k * L['P'] + L['value']] = (('p', V(b, k), 0), 8)
    string(KEY, 'key'); string(VALUE, 'value')
    st.objs[DATA] = ('ext', None, 'ext', 'user data')
    st.roots = (frozenset([PROPS, KEY, VALUE, DATA]),)
    return st

class Check(object):
    def __init__(s, P, r, pid):
        s.P = P; s.r = r; s.pid = pid; s.L = layout(P); s.cov = {}
    def func(s, n):
        f = [f for f in s.P.bysrc.get(n, []) if not f.decl]
        if not f: raise build.Broken('%s is not defined' % n)
        return f[0]
    def run(s, name, args, counts, h=None, extra=None):
        f = s.func(name)
        c = Map(s.P, name, counts, h)
        st = table(c, s.P, s.L, counts)
        if extra: extra(st)
        I = Interp(s.P, c)
        try: outs = I.call_function(f, st, args, 'API', 0, ())
        except Budget:
            s.r.inconclusive.append('%s on a table of shape %s: analysis did not finish' % (name, counts)); return c, I, []
        for x in c.reports.values():
            k = x.kind
            to = {'leak': 'M01', 'badfree': 'M02', 'freed': 'M02', 'null': 'M02', 'undef': 'M02', 'oob': 'D01', 'assert': 'D01'}.get(k)
            if to == s.pid or (to == 'M02' and s.pid == 'D01' and k in ('freed',)): s.r.ob(False, x.where, x.func, '%s: %s' % (name, x.what), x.trace, '%s-%s-%s' % (name, k, x.func))
        if s.pid == 'D01':
            for k, v in c.unproved.items(): s.r.ob(None, k[0], k[1], '%s: access at %s of %s bytes in %s' % ((name,) + v))
            s.r.obligations += c.accesses['proved']; s.r.discharged += c.accesses['proved']
        else: s.r.ob(True, '', name, '')
        d = s.cov.setdefault(name, {'tables': 0, 'paths': 0}); d['tables'] += 1; d['paths'] += len(outs)
        return c, I, [(s2, v) for s2, v, k in outs if k == 'ret']
    def wh(s, n):
        f = s.func(n); return '%s:%s' % (ir.short(f.file), f.line)
    # which worlds are left open: list of None (key absent) or (b, k)
    def worlds(s, I, st, slot, n):
        rel = st.mon.get('rel', frozenset())
        if any(x == 'pre' for e, x in rel): pre = True
        eqs = [e for e, x in rel if x == 'eq']
        if eqs: return eqs
        out = []
        ne = {e for e, x in rel if x == 'ne'}
        out.append(None)
        for k in range(n):
            e = (slot, k)
            if e in ne: continue
            t = st.copy()
            if assume_eq(t, libc.strlen_term(I, t, ('p', KEY, 0)), libc.strlen_term(I, t, ('p', K(*e), 0))) is False: continue
            ok = excluded(st, e)
            if ok is True: continue
            ok = None if ok is None or not s.L['plain'] else True
            out.append(e if ok else ('?', e))
        return out
    def shapes(s): return [(0,), (1,), (2,), (3,)]

def excluded(st, e):
    """does a branch of the path contradict that the text of entry e is the text of the key: True / False / None"""
    r = False; o = K(*e)
    t = st.trace
    while t:
        x = t[1]; t = t[0]
        if x.__class__ is not tuple or len(x) != 3 or not is_num(x[1]): continue
        deep = T.deep_of(x[1])
        mine = [a for a in deep if T.atom_key(a)[0] in ('strlen', 'init') and T.atom_key(a)[1] == o]
        if not mine: continue
        a = single_atom(x[1]); k = T.atom_key(a) if a is not None else ('',)
        mp = {m: T.A((T.atom_key(m)[0], KEY) + T.atom_key(m)[2:]) for m in mine}
        if k[0] == 'cmp' and is_num(k[2]) and is_num(k[3]):
            u, v = T.subst(k[2], mp), T.subst(k[3], mp)
            d = absint.decide(st, k[1], u, v) if u is not None and v is not None else None
        elif a in mp: d = (lambda z: None if z is None else not z)(eq(st, mp[a], 0))
        else: d = None
        if d is None: r = None
        elif bool(d) != x[2]: return True
    return r

def compared(st, o):
    """the path depends on a comparison of the text in o"""
    t = st.trace
    while t:
        x = t[1]; t = t[0]
        if x.__class__ is tuple and len(x) == 3 and is_num(x[1]) and any(T.atom_key(a)[0] == 'addr' and T.atom_key(a)[1] == o for a in T.deep_of(x[1])): return True
    return False

def content(c, I, st, o, src):
    """does object o hold a copy of the whole text src"""
    if is_ptr(o) and o[1] == src: return True
    if not is_ptr(o): return None
    cps = [x for x in st.mon.get('cp', ()) if is_ptr(x[0]) and x[0][1] == o[1]]
    if not cps and compared(st, o[1]): return None
    if not cps: return False if (o[1][1].__class__ is tuple and o[1][1][0] in ('key', 'value')) or not (st.mem.get(o[1]) or {}) else None
    d, q, n = cps[-1]
    if q.__class__ is tuple and q[0] == 'fmt': return None
    # a copy of a copy
    for i in range(3):
        if is_ptr(q) and q[1] != src and q[2] == 0:
            e = [x for x in st.mon.get('cp', ()) if is_ptr(x[0]) and x[0][1] == q[1] and x[0][2] == 0]
            if e and e[-1][1].__class__ is tuple and is_ptr(e[-1][1]): q = e[-1][1]
    if not is_ptr(q): return None
    if d[2] != 0 or o[2] != 0: return None
    if q[1] != src or q[2] != 0: return False
    Ls = libc.strlen_term(I, st, ('p', src, 0))
    if prove(c, st, lambda t: le(t, add(Ls, 1), n), [Ls, n]) is True: return True
    if buffers.term_store(st, o, Ls): return True
    return False if prove(c, st, lambda t: le(t, n, Ls), [Ls, n]) is True else None

def state_of(C, I, st, N):
    """list per slot of (key pointer, value pointer)"""
    L = C.L
    m = st.mem.get(PROPS) or {}
    p = m.get(L['map'])
    if not p or not is_ptr(p[0]): return None
    mm = st.mem.get(p[0][1]) or {}
    b = mm.get(L['buckets']); n = mm.get(L['count'][0])
    if not b or not is_ptr(b[0]) or not n or n[0] != N: return None
    bm = st.mem.get(b[0][1]) or {}
    out = []
    for i in range(N):
        n = bm.get(i * L['B'] + L['n'][0]); q = bm.get(i * L['B'] + L['pairs'])
        n = n[0] if n else (0 if 'zero' in bm else None)
        if not is_int(n): return None
        E = []
        if n:
            if not q or not is_ptr(q[0]): return None
            qm = st.mem.get(q[0][1]) or {}
            z = I.obj_size(st, q[0][1])
            for k in range(n):
                a, v = qm.get(q[0][2] + k * L['P'] + L['key']), qm.get(q[0][2] + k * L['P'] + L['value'])
                un = None if '*' in qm else 'unset'
                E.append((a[0] if a else un, v[0] if v else un))
            if is_int(z) and z < q[0][2] + n * L['P']: E.append('overrun')
        out.append(E)
    return out

def tr(st): return show_trace(st.notes(8))
def label(w): return 'absent' if w is None else 'entry %d of %s' % (w[1] + 1, 'its slot')

def put(C, name, args, valsrc, extra=None, check_value=True):
    for shape in C.shapes():
        c, I, outs = C.run(name, args, shape, 0, extra)
        if C.pid != 'D01': continue
        wh = C.wh(name); n = shape[0]
        for s2, v in outs:
            if s2.mon.get('unk'): C.r.ob(None, wh, name, 'how keys are compared'); continue
            S = state_of(C, I, s2, 1)
            if S is None: C.r.ob(None, wh, name, 'state of the table after storing'); continue
            E = S[0]
            if 'overrun' in E: C.r.ob(False, wh, name, 'the table says %d entries where it has room for fewer' % n, tr(s2), name + '-room'); continue
            for w in C.worlds(I, s2, 0, n):
                tag = '%s: table with %d entries, key %s' % (name, n, label(w) if not w or w[0] != '?' else 'unknown')
                if w is not None and w[0] == '?': C.r.ob(None, wh, name, tag); continue
                keep = [(('p', K(0, k), 0), ('p', V(0, k), 0)) for k in range(n) if w != (0, k)]
                rest = list(E); lost = []
                for x in keep:
                    hit = [y for y in rest if y[0] == x[0]]
                    if not hit: lost.append(x); continue
                    rest.remove(hit[0])
                    if hit[0][1] != x[1]: C.r.ob(False if hit[0][1] is not None else None, wh, name, tag + ': another key changes its value', tr(s2), name + '-other')
                    if any(is_ptr(q[0]) and q[0][1] in (x[0][1], x[1][1]) for q in s2.mon.get('cp', ())): C.r.ob(False, wh, name, tag + ': the text of another entry is overwritten', tr(s2), name + '-other-text')
                unk = any(y[0] is None or y[1] is None for y in E)
                if lost and not any('unset' in y for y in E): C.r.ob(None if unk else False, wh, name, tag + ': another entry disappears', tr(s2), name + '-lost'); continue
                if any('unset' in y for y in E): C.r.ob(False, wh, name, tag + ': an entry of the table is never filled in', tr(s2), name + '-unset'); continue
                if len(rest) != 1: C.r.ob(False if not unk else None, wh, name, tag + (': the key is not in the table' if not rest else ': the table has %d entries for the key' % len(rest)), tr(s2), name + '-count'); continue
                kp, vp = rest[0]
                if w is not None and kp == ('p', K(*w), 0):
                    ck = False if any(is_ptr(q[0]) and q[0][1] == kp[1] and q[1] != ('p', KEY, 0) for q in s2.mon.get('cp', ())) else True
                    if (w, 'pre') in s2.mon.get('rel', ()): ck = False
                else:
                    ck = content(c, I, s2, kp, KEY) if is_ptr(kp) else None
                    if kp == ('p', KEY, 0): ck = False
                C.r.ob(ck, wh, name, tag + ': the key stored is not the key given', tr(s2), name + '-key')
                cv = content(c, I, s2, vp, valsrc) if check_value is True else check_value(c, I, s2, vp)
                if vp == ('p', valsrc, 0): cv = False
                C.r.ob(cv, wh, name, tag + ': the value stored is not the value given', tr(s2), name + '-value')
            # a path that took another key for this one
            wrong = [e for e, x in s2.mon.get('rel', ()) if x == 'pre']
            if wrong:
                same = [e for e in wrong if (('p', K(*e), 0)) in [y[0] for y in E if y != 'overrun'] and any(is_ptr(q[0]) and q[0][1] == dict((y[0], y[1]) for y in E).get(('p', K(*e), 0), (0, 0))[1] for q in s2.mon.get('cp', ()))]
                if same: C.r.ob(False, wh, name, '%s: a key that only partly agrees is taken for the key' % name, tr(s2), name + '-partial')

def get(C, name, args, judge, extra=None):
    for shape in C.shapes():
        c, I, outs = C.run(name, args, shape, 0, extra)
        if C.pid != 'D01': continue
        wh = C.wh(name); n = shape[0]
        for s2, v in outs:
            if s2.mon.get('unk'): C.r.ob(None, wh, name, 'how keys are compared'); continue
            pre = any(x == 'pre' for e, x in s2.mon.get('rel', ()))
            for w in C.worlds(I, s2, 0, n):
                if w is not None and w[0] == '?': C.r.ob(None, wh, name, 'key unknown'); continue
                ok, what = judge(c, I, s2, v, w)
                tag = '%s: table with %d entries, key %s' % (name, n, label(w))
                C.r.ob(ok, wh, name, tag + ': ' + what, tr(s2), '%s-%s' % (name, what))
            untouched(C, c, I, s2, shape, wh, name)

def untouched(C, c, I, st, shape, wh, name):
    S = state_of(C, I, st, len(shape))
    if S is None: C.r.ob(None, wh, name, 'state of the table after reading'); return
    want = [[(('p', K(b, k), 0), ('p', V(b, k), 0)) for k in range(n)] for b, n in enumerate(shape)]
    wr = [q for q in st.mon.get('cp', ()) if is_ptr(q[0]) and q[0][1][0] == 'heap' and q[0][1][1].__class__ is tuple and q[0][1][1][0] in ('key', 'value') and q[0][1][1][1].__class__ is int]
    C.r.ob(S == want and not wr or False, wh, name, '%s changes the table' % name, tr(st), name + '-changes')

def judge_get(c, I, st, v, w):
    if w is None: return (True if v == NULL else False if is_ptr(v) and v[1][0] == 'heap' else None), 'a value is returned'
    if v == NULL: return False, 'no value is returned'
    if is_ptr(v) and v[1] == V(*w): return None, 'the stored text itself is returned'
    return content(c, I, st, v, V(*w)), 'another text is returned'
def judge_has(c, I, st, v, w):
    z = eq(st, v, 0) if is_num(v) else None
    if w is None: return z, 'it is reported as present'
    return (None if z is None else not z), 'it is reported as absent'
def judge_num(d):
    def j(c, I, st, v, w):
        same = v == d or (is_num(v) and is_num(d) and eq(st, v, d) is True)
        if w is None: return (True if same else False if is_num(v) and any(T.atom_key(a)[0] == 'env' and T.atom_key(a)[1] == 'parsed' for a in T.deep_of(v)) else None), 'the result is not the default'
        if st.mon.get('end') == 'all': return (False if same else True), 'a number that was stored is not returned'
        return True, ''
    return j

def enum_count(C):
    shapes = [(1,), (0, 0, 0), (1, 0, 2), (0, 2, 1), (3, 0, 0), (0, 0, 1), (2, 2, 2), (1, 1)]
    name = 'trax_properties_enumerate'; wh = C.wh(name)
    for shape in shapes:
        c, I, outs = C.run(name, [('p', PROPS, 0), ('f', CB), ('p', DATA, 0)], shape)
        if C.pid == 'D01':
            for s2, v in outs:
                got = list(s2.mon.get('cb', ()))
                want = [(('p', K(b, k), 0), ('p', V(b, k), 0), ('p', DATA, 0)) for b, n in enumerate(shape) for k in range(n)]
                miss = [x for x in want if x not in got]; extra = [x for x in got if x not in want]; dup = [x for x in got if got.count(x) > 1]
                txt = 'slots with %s entries: ' % ', '.join(map(str, shape))
                C.r.ob(not miss, wh, name, txt + '%d of %d entries are not visited' % (len(miss), len(want)), tr(s2), name + '-miss')
                C.r.ob(not dup, wh, name, txt + 'an entry is visited twice', tr(s2), name + '-twice')
                C.r.ob(not extra, wh, name, txt + 'the visitor gets what is not an entry', tr(s2), name + '-extra')
                untouched(C, c, I, s2, shape, wh, name)
    name = 'trax_properties_count'; wh = C.wh(name)
    for shape in shapes:
        c, I, outs = C.run(name, [('p', PROPS, 0)], shape)
        if C.pid == 'D01':
            for s2, v in outs:
                e = eq(s2, v, sum(shape)) if is_num(v) else None
                C.r.ob(e, wh, name, 'slots with %s entries are counted as %s' % (', '.join(map(str, shape)), T.show(v)), tr(s2), name + '-count')
    return len(shapes)

def slots(C):
    """storing and looking up use the same slot, inside the table"""
    if not any(f.src == 'hash' and not f.decl for f in C.P.funcs.values()): C.r.inconclusive.append('the hash function has another name'); return
    for N in (1, 2, 3):
        for h in range(0, 2 * N + 1):
            home = set()
            c, I, outs = C.run('trax_properties_set', [('p', PROPS, 0), ('p', KEY, 0), ('p', VALUE, 0)], (0,) * N, h)
            for s2, v in outs:
                S = state_of(C, I, s2, N)
                if S is None: C.r.inconclusive.append('slot of a new key'); continue
                home |= {b for b in range(N) if S[b]}
                if s2.mon.get('hk') and False in s2.mon['hk']: C.r.ob(False, C.wh('trax_properties_set'), 'trax_properties_set', 'the slot is computed from something else than the key', tr(s2), 'hash-arg')
            if len(home) != 1: C.r.ob(None, C.wh('trax_properties_set'), '', 'slot of a new key'); continue
            home = home.pop()
            for name, a in (('trax_properties_get', []), ('trax_properties_has', []), ('trax_properties_set', [('p', VALUE, 0)])):
                c, I, outs = C.run(name, [('p', PROPS, 0), ('p', KEY, 0)] + a, (1,) * N, h)
                for s2, v in outs:
                    rel = s2.mon.get('rel', frozenset())
                    bs = {e[0] for e, x in rel}
                    if s2.mon.get('unk'): C.r.ob(None, C.wh(name), name, 'how keys are compared'); continue
                    C.r.ob(True if home in bs else False if C.L['plain'] and bs else None, C.wh(name), name, 'a key with hash %d in a table of %d slots is stored in slot %d and looked for in slot %s' % (h, N, home, sorted(bs)), tr(s2), name + '-slot')

def purity(C):
    """the hash depends on the text of the key only"""
    for f in C.P.bysrc.get('hash', []):
        if f.decl: continue
        wh = '%s:%s' % (ir.short(f.file), f.line)
        bad = None
        for b in f.blocks:
            for I in b:
                if I.op == 'ptrtoint': bad = 'the address of the key'
                if I.op == 'load':
                    g = [o for o in I.o if o[0] == 'g']
                    if g and not C.P.globals.get(g[0][1], {}).get('const'): bad = 'the variable %s' % g[0][1]
                if I.op in ('call', 'invoke') and I.d['callee'][0] == 'f' and I.d['callee'][1] in ('rand', 'time', 'clock', 'random'): bad = I.d['callee'][1]
        C.r.ob(not bad, wh, 'hash', 'the slot of a key depends on %s' % bad, (), 'hash-pure')

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('Abstract interpretation of the public property operations, hash table inlined, on tables of up to three slots and three entries per slot with unknown key and value texts; every text comparison splits the path under the invariant that all keys of a table differ. Rule: in each world a path leaves open, the final table, result and visited entries are those of a map.')
    C = Check(P, r, pid)
    if C.L is None: r.inconclusive.append('the structures of the hash table have changed'); return r
    pk = [('p', PROPS, 0), ('p', KEY, 0)]
    put(C, 'trax_properties_set', pk + [('p', VALUE, 0)], VALUE)
    def number(conv):
        def chk(c, I, st, vp):
            if not is_ptr(vp): return None
            cps = [x for x in st.mon.get('cp', ()) if is_ptr(x[0]) and x[0][1] == vp[1]]
            if not cps and compared(st, vp[1]): return None
            if not cps: return False if vp[1][1].__class__ is tuple and vp[1][1][0] == 'value' else None
            q = cps[-1][1]
            if is_ptr(q):
                e = [x for x in st.mon.get('cp', ()) if is_ptr(x[0]) and x[0][1] == q[1]]
                if not e: return None
                q = e[-1][1]
            if q[0] != 'fmt': return None
            return True if q[2] == NUM or (q[2] is not None and q[2] == NUMD) else None
        return chk
    NUM = T.A(('env', 'number')); NUMD = NUM
    def ext(st): refine(st, single_atom(NUM), -(1 << 31), (1 << 31) - 1)
    put(C, 'trax_properties_set_int', pk + [NUM], VALUE, ext, number(b'%d'))
    put(C, 'trax_properties_set_float', pk + [NUM], VALUE, None, number(b'%f'))
    get(C, 'trax_properties_get', pk, judge_get)
    get(C, 'trax_properties_has', pk, judge_has)
    D = T.A(('env', 'default'))
    get(C, 'trax_properties_get_int', pk + [D], judge_num(D), lambda st: refine(st, single_atom(D), -(1 << 31), (1 << 31) - 1))
    get(C, 'trax_properties_get_float', pk + [D], judge_num(D))
    n = enum_count(C)
    if pid == 'D01': slots(C); purity(C)
    if pid in ('M01', 'M02'):
        for shape in [(0,), (1,), (2,), (0, 2), (1, 0, 2)]:
            C.run('trax_properties_clear', [('p', PROPS, 0)], shape)
            cell = ('ext', 'variable')
            P2 = ('heap', 'properties', 0)
            def own(st):
                st.objs[P2] = ('heap', P.didx['trax_properties']['size'], 'live', 'properties'); st.mem[P2] = st.mem.pop(PROPS); st.objs.pop(PROPS)
                st.objs[cell] = ('ext', 8, 'ext', 'variable'); st.mem[cell] = {0: (('p', P2, 0), 8)}
                st.roots = (frozenset([cell, KEY, VALUE, DATA]),)
            C.run('trax_properties_release', [('p', cell, 0)], shape, None, own)
    r.coverage = {'operations': C.cov}
    r.assumptions = ['allocation succeeds', 'tables of more than three slots or entries per slot behave like the ones analysed', 'strtod recognises the text printf writes']
    r.sample({'operation': 'trax_properties_set', 'shapes': C.shapes()})
    return r
if __name__ == '__main__':
    import sys
    r = run(sys.argv[1] if len(sys.argv) > 1 else 'D01', 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations[:12]: print(v.text())
    for i in sorted(set(r.inconclusive)): print('?', i)
