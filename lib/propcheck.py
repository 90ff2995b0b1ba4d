"""D02: merging of property sets, and the reserved keys.

Properties are followed through one arbitrary entry: enumerating a set calls the visitor once with an entry (K, V) of
that set; whether K is in another set splits the path; comparisons of K with constant texts partition a set of
representative keys (every constant text of the program that begins like a reserved key, its neighbours, and ordinary
keys).  Each path must store the entry exactly when the merge asks for it, for every key and every prior content the
path leaves open."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, UNDEF, eq, refine, assume_ne
from core import Base, show_trace
from pixels import atom
from result import Result

KEY = ('ext', 'key'); VALUE = ('ext', 'value')
RES = b'trax.'

class Props(Base):
    part_limit = 60; max_states = 4000; max_heads = 400; steps = 300000
    def __init__(s, P, entry):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models)
        for n in ('sm_new', 'sm_delete', 'sm_put', 'sm_get', 'sm_exists', 'sm_get_count', 'sm_enum', 'trax_properties_get', 'trax_properties_get_int', 'trax_properties_get_float', 'read_message', 'write_message',
                  'create_message_stream_file', 'create_message_stream_socket_connect', 'create_message_stream_socket_accept', 'destroy_message_stream',
                  'region_formats_decode', 'image_formats_decode', 'channels_decode', 'region_formats_encode', 'image_formats_encode', 'channels_encode', 'trax_region_clone', 'trax_region_release'):
            s.models[n] = getattr(s, 'm_' + n)
        for n in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp', 'memcmp', 'bcmp'): s.models[n] = s.cmp
        s.models['strlen'] = s.length
        s.models['strstr'] = s.models['strchr'] = s.other
        lits = set()
        for g in P.globals:
            t = P.string(g)
            if t and t[:2].lower() == b'tr' and len(t) < 40 and b' ' not in t and b'%' not in t: lits.add(t)
        s.reps = frozenset({b'trax.', b'trax.version', b'trax.x', b'trax.zzz', b'trax', b'traxx', b'trax-x', b'tra', b't', b'', b'name', b'Trax.x', b'TRAX.NAME', b'my.trax.key', b'xtrax.', b'tracker'} | lits | {t + b'x' for t in lits} | {t[:-1] for t in lits})
    def mon_key(s, st): return tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr))
    def on_access(s, *a): pass
    def cmp(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]
        a, b = args[0], args[1]
        x, y = libc.cstr(I, st, a), libc.cstr(I, st, b)
        if y is None and x is not None: a, b, x, y = b, a, y, x
        if y is None or not is_ptr(a) or a[1] != KEY or not is_int(a[2]): return libc.m_strcmp(I, st, fr, ins, args)
        n = None
        if 'n' in nm.replace('strcmp', '').replace('strcasecmp', '') or nm in ('memcmp', 'bcmp'):
            n = I.num(st, args[2], (fr.uid, ins.id, 'n'))
            if not is_int(n): st.mon['unk'] = True; return libc.m_strcmp(I, st, fr, ins, args)
        def out(r):
            r = r[a[2]:] if len(r) >= a[2] else None
            if r is None: return None
            u, v = r, y
            if 'case' in nm: u = u.lower(); v = v.lower()
            if n is not None: u = u[:n]; v = v[:n]
            return 0 if u == v else 1 if u > v else -1
        res = []
        reps = st.mon.get('reps', s.reps)
        for o in (0, 1, -1):
            part = frozenset(r for r in reps if out(r) == o)
            if part:
                t = st.copy(); t.mon['reps'] = part; res.append((t, o))
        return res
    def length(s, I, st, fr, ins, args):
        a = args[0]
        if not is_ptr(a) or a[1] != KEY or a[2] != 0: return libc.m_strlen(I, st, fr, ins, args)
        by = {}
        for k in st.mon.get('reps', s.reps): by.setdefault(len(k), set()).add(k)
        out = []
        for n, ks in sorted(by.items()):
            t = st.copy(); t.mon['reps'] = frozenset(ks); out.append((t, n))
        return out
    def other(s, I, st, fr, ins, args):
        if any(is_ptr(a) and a[1] == KEY for a in args): st.mon['unk'] = True
        return libc.m_strchr(I, st, fr, ins, args)
    def on_load(s, I, st, fr, ins, p, v):
        if is_ptr(p) and p[1] == KEY: st.mon['unk'] = True
        return Base.on_load(s, I, st, fr, ins, p, v)
    # ---- maps
    def ev(s, st, *x): st.mon['ev'] = st.mon.get('ev', ()) + (x,)
    def m_sm_new(s, I, st, fr, ins, a):
        o = I.newobj(st, 'heap', libc.site(fr, ins), None)
        st.objs[o] = ('heap', None, st.objs[o][2], fr.f.where(ins)); st.mem[o] = {'*': True}
        st.mon['new'] = st.mon.get('new', ()) + (o,)
        return [(st, ('p', o, 0))]
    def m_sm_delete(s, I, st, fr, ins, a): return [(st, None)]
    def m_sm_put(s, I, st, fr, ins, a):
        k = a[1]; lit = libc.cstr(I, st, k)
        s.ev(st, 'put', a[0][1] if is_ptr(a[0]) else None, k if lit is None else lit, a[2], fr.f.where(ins), fr.f.src)
        return [(st, 1)]
    def has(s, st, m, k, yes, no):
        if k != ('p', KEY, 0): return None
        put = [e for e in st.mon.get('ev', ()) if e[0] == 'put' and e[1] == m[1] and e[2] == k]
        h = dict(st.mon.get('has', ()))
        if put: return [(st, yes)]
        if m[1] in h: return [(st, yes if h[m[1]] else no)]
        if m[1] in st.mon.get('new', ()): return [(st, no)]
        if m[1] == st.mon.get('src'): return [(st, yes)]
        out = []
        for v, r in ((True, yes), (False, no)):
            t = st.copy(); t.mon['has'] = tuple(sorted(list(h.items()) + [(m[1], v)], key=repr)); out.append((t, r))
        return out
    def m_sm_get(s, I, st, fr, ins, a):
        sz = T.A(('env', 'size of value')); refine(st, single_atom(sz), 1, 1 << 30)
        r = s.has(st, a[0], a[1], sz, 0) if is_ptr(a[0]) else None
        return r or [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1 << 30))]
    def m_sm_exists(s, I, st, fr, ins, a):
        r = s.has(st, a[0], a[1], 1, 0) if is_ptr(a[0]) else None
        return r or [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1))]
    def m_sm_get_count(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1 << 30))]
    def m_sm_enum(s, I, st, fr, ins, a):
        f = s.prog.funcs.get(a[1][1]) if a[1].__class__ is tuple and a[1][0] == 'f' else None
        if f is None or f.decl or not is_ptr(a[0]): st.mon['unk'] = True; return [(st, 1)]
        if st.mon.get('src') is not None: return [(st, 1)] if st.mon['src'] != a[0][1] and a[0][1] in st.mon.get('new', ()) and not any(e[1] == a[0][1] for e in st.mon.get('ev', ())) else s.again(I, st, f, a)
        st.mon['src'] = a[0][1]
        return s.visit(I, st, f, a)
    def again(s, I, st, f, a):
        # the followed entry is visited when the set enumerated holds it
        held = a[0][1] == st.mon['src'] or any(e[0] == 'put' and e[1] == a[0][1] and e[2] == ('p', KEY, 0) for e in st.mon.get('ev', ()))
        return s.visit(I, st, f, a) if held else [(st, 1)]
    def visit(s, I, st, f, a):
        return [(s2, 1) for s2, v, k in I.call_function(f, st, [('p', KEY, 0), ('p', VALUE, 0), a[2]], 'visitor', 3, ('visitor',)) if k == 'ret']
    # ---- everything around
    def some(s, I, st, fr, ins, nullable=True):
        o = I.newobj(st, 'heap', libc.site(fr, ins), None); st.objs[o] = ('heap', None, 'escaped', ''); st.mem[o] = {'*': True}
        return [(st, ('p', o, 0))]
    def m_trax_properties_get(s, I, st, fr, ins, a): return s.some(I, st, fr, ins)
    def m_trax_properties_get_int(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), -(1 << 31), (1 << 31) - 1))]
    m_trax_properties_get_float = m_trax_properties_get_int
    def m_read_message(s, I, st, fr, ins, a):
        m = st.mem.get(a[3][1], {}).get(0) if is_ptr(a[3]) else None
        if m and is_ptr(m[0]): st.mon['msg'] = m[0][1]; st.mon['new'] = tuple(x for x in st.mon.get('new', ()) if x != m[0][1])
        return [(st, core.consts()['TRAX_HELLO'])]
    def m_write_message(s, I, st, fr, ins, a): return [(st, 1)]
    def m_create_message_stream_file(s, I, st, fr, ins, a): return s.some(I, st, fr, ins)
    m_create_message_stream_socket_connect = m_create_message_stream_socket_accept = m_create_message_stream_file
    def m_destroy_message_stream(s, I, st, fr, ins, a): return [(st, None)]
    def num(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 1, 1 << 20))]
    m_region_formats_decode = m_image_formats_decode = m_channels_decode = num
    def m_region_formats_encode(s, I, st, fr, ins, a):
        if is_ptr(a[1]): st.mem[a[1][1]] = {'*': True}
        return [(st, None)]
    m_image_formats_encode = m_channels_encode = m_region_formats_encode
    def m_trax_region_clone(s, I, st, fr, ins, a): return s.some(I, st, fr, ins)
    def m_trax_region_release(s, I, st, fr, ins, a): return [(st, None)]

SRC = ('ext', 'source'); DST = ('ext', 'destination'); SMAP = ('ext', 'source map'); DMAP = ('ext', 'destination map')

def base(P):
    st = State(); st.mon = {}
    z = P.didx['trax_properties']['size']; mo = P.field('trax_properties', 'map')[0]
    for o, m in ((SRC, SMAP), (DST, DMAP)):
        st.objs[o] = ('ext', z, 'ext', o[1]); st.objs[m] = ('ext', None, 'ext', m[1]); st.mem[o] = {mo: (('p', m, 0), 8)}
    for o in (KEY, VALUE): st.objs[o] = ('ext', None, 'ext', o[1])
    st.roots = (frozenset([SRC, DST, SMAP, DMAP, KEY, VALUE]),)
    return st

def go(P, r, name, st, args):
    f = [f for f in P.bysrc.get(name, []) if not f.decl]
    if not f: raise build.Broken('%s is not defined' % name)
    c = Props(P, name); I = Interp(P, c)
    try: outs = I.call_function(f[0], st, args, 'API', 0, ())
    except Budget: r.inconclusive.append('%s: analysis did not finish' % name); return c, I, [], ''
    return c, I, [(s2, v) for s2, v, k in outs if k == 'ret'], '%s:%s' % (ir.short(f[0].file), f[0].line)

def judge(r, c, st, dest, want, wh, name, new=False):
    """want(key, present) -> should the entry be stored"""
    if st.mon.get('unk'): r.ob(None, wh, name, 'how keys are told apart'); return
    reps = st.mon.get('reps', c.reps)
    ev = [e for e in st.mon.get('ev', ()) if e[0] == 'put']
    puts = [e for e in ev if e[1] == dest and e[2] == ('p', KEY, 0)]
    h = dict(st.mon.get('has', ())).get(dest)
    worlds = [False] if new else [h] if h is not None else [True, False]
    tr = show_trace(st.notes(6))
    for k in sorted(reps):
        for pres in worlds:
            w = want(k, pres)
            txt = '%s, %s in the destination' % (repr(k.decode('latin1')), 'already' if pres else 'not yet')
            if w is None: continue
            if w: r.ob(bool(puts), wh, name, '%s: the entry %s is not stored' % (name, txt), tr, '%s-missing-%s' % (name, 'present' if pres else 'absent'))
            else: r.ob(not puts, puts[0][4] if puts else wh, name, '%s: the entry %s is stored' % (name, txt), tr, '%s-stored-%s' % (name, 'present' if pres else 'absent'))
    for e in puts: r.ob(True if e[3] == ('p', VALUE, 0) else False if is_ptr(e[3]) and e[3][1] == KEY else None, e[4], e[5], '%s: the value stored is not the value of the entry' % name, tr, name + '-value')
    for e in ev:
        if e[1] != dest and e[2] == ('p', KEY, 0) and e[1] in (SMAP, DMAP): r.ob(False, e[4], e[5], '%s: the wrong set is changed' % name, tr, name + '-set')

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('Abstract interpretation of the merging functions and of session setup, following one arbitrary entry: presence in the destination splits the path, comparisons with constant texts partition a set of representative keys. Rule: an entry is stored exactly when the merge asks for it (append without overwrite: only if absent; with overwrite, copy and list append: always; custom properties of a session: unless the key begins with trax.).')
    P.field('trax_properties', 'map')
    always = lambda k, p: True
    for over, want in ((0, lambda k, p: not p), (1, always), (2, always), (-1, always)):
        st = base(P)
        c, I, outs, wh = go(P, r, 'trax_properties_append', st, [('p', SRC, 0), ('p', DST, 0), over])
        for s2, v in outs:
            if s2.mon.get('src') != SMAP: r.ob(False if s2.mon.get('src') == DMAP else None if s2.mon.get('unk') else False, wh, 'trax_properties_append', 'the source is not enumerated', show_trace(s2.notes(6)), 'append-source'); continue
            judge(r, c, s2, DMAP, want, wh, 'trax_properties_append')
    st = base(P); c, I, outs, wh = go(P, r, 'trax_properties_copy', st, [('p', SRC, 0)])
    mo = P.field('trax_properties', 'map')[0]
    for s2, v in outs:
        m = (s2.mem.get(v[1]) or {}).get(mo) if is_ptr(v) else None
        if not m or not is_ptr(m[0]): r.ob(None, wh, 'trax_properties_copy', 'result of a copy'); continue
        judge(r, c, s2, m[0][1], always, wh, 'trax_properties_copy', True)
    # list append
    st = base(P); L, S = ('ext', 'list'), ('ext', 'appended list'); g = lambda n: P.field('trax_object_list', n)[0]
    for o, n in ((L, 1), (S, 1)):
        st.objs[o] = ('ext', P.didx['trax_object_list']['size'], 'ext', o[1])
        rg, pr = ('heap', o[1] + ' regions', 0), ('heap', o[1] + ' properties', 0)
        st.objs[rg] = ('heap', 8 * n, 'live', ''); st.objs[pr] = ('heap', 8 * n, 'live', '')
        st.mem[rg] = {0: (('p', ('ext', o[1] + ' region'), 0), 8)}; st.objs[('ext', o[1] + ' region')] = ('ext', None, 'ext', '')
        st.mem[pr] = {0: (('p', DST if o == L else SRC, 0), 8)}
        st.mem[o] = {g('size'): (n, 4), g('regions'): (('p', rg, 0), 8), g('properties'): (('p', pr, 0), 8)}
    st.roots = (st.roots[0] | {L, S},)
    c, I, outs, wh = go(P, r, 'trax_object_list_append', st, [('p', L, 0), ('p', S, 0)])
    for s2, v in outs:
        m = s2.mem.get(L) or {}
        a = m.get(g('properties')); q = (s2.mem.get(a[0][1]) or {}).get(8) if a and is_ptr(a[0]) else None
        d = (s2.mem.get(q[0][1]) or {}).get(mo) if q and is_ptr(q[0]) else None
        if not d or not is_ptr(d[0]): r.ob(None, wh, 'trax_object_list_append', 'properties of an appended object'); continue
        judge(r, c, s2, d[0][1], always, wh, 'trax_object_list_append', d[0][1] in s2.mon.get('new', ()))
    # sessions
    H = core.consts()
    for name in ('trax_client_setup_file', 'trax_client_setup_socket', 'trax_server_setup_v', 'trax_server_setup_file_v'):
        st = base(P); META = ('ext', 'metadata')
        mf = lambda n: P.field('trax_metadata', n)
        st.objs[META] = ('ext', P.didx['trax_metadata']['size'], 'ext', 'metadata')
        st.mem[META] = {mf('custom')[0]: (('p', SRC, 0), 8), mf('channels')[0]: (1, 4)}
        st.roots = (st.roots[0] | {META},)
        log = ('p', ('ext', 'logging'), 0); st.objs[log[1]] = ('ext', None, 'ext', 'logging')
        one = atom(st, 'descriptor', 0, 1 << 20)
        args = {'trax_client_setup_file': [one, one, log], 'trax_client_setup_socket': [one, one, log], 'trax_server_setup_v': [('p', META, 0), log, 4], 'trax_server_setup_file_v': [('p', META, 0), one, one, log, 4]}[name]
        if not [f for f in P.bysrc.get(name, []) if not f.decl]: raise build.Broken('%s is not defined' % name)
        f = [f for f in P.bysrc[name] if not f.decl][0]
        if f.nargs != len(args): r.inconclusive.append('%s takes other arguments' % name); continue
        c, I, outs, wh = go(P, r, name, st, args)
        for s2, v in outs:
            if not is_ptr(v): continue
            q = (s2.mem.get(v[1]) or {}).get(P.field('trax_handle', 'metadata')[0])
            cu = (s2.mem.get(q[0][1]) or {}).get(mf('custom')[0]) if q and is_ptr(q[0]) else None
            if not cu: r.ob(None, wh, name, 'metadata of the session'); continue
            if cu[0] == NULL: r.ob(True, wh, name, ''); continue
            m = (s2.mem.get(cu[0][1]) or {}).get(mo) if is_ptr(cu[0]) else None
            if not m or not is_ptr(m[0]): r.ob(None, wh, name, 'custom properties of the session'); continue
            m = m[0][1]
            for e in s2.mon.get('ev', ()):
                if e[0] == 'put' and e[1] == m and isinstance(e[2], bytes): r.ob(not e[2].startswith(RES), e[4], e[5], '%s: the reserved key %s enters the custom properties' % (name, e[2].decode('latin1')), (), name + '-literal')
            if 'client' in name: judge(r, c, s2, m, lambda k, p: not k.startswith(RES), wh, name, m in s2.mon.get('new', ()) or m != s2.mon.get('msg'))
            else: judge(r, c, s2, m, lambda k, p: False if k.startswith(RES) else None, wh, name, True)
        r.coverage.setdefault('sessions', {})[name] = len(outs)
    r.coverage['representative keys'] = len(Props(P, '').reps)
    r.assumptions = ['a property set is a map whose enumeration visits every entry once (D01)', 'keys that agree on every comparison with a constant text are treated alike']
    r.sample({'key': 'trax.x', 'rule': 'never stored in custom properties'})
    return r
if __name__ == '__main__':
    r = run('D02', 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations[:12]: print(v.text())
    for i in sorted(set(r.inconclusive)): print('?', i)
