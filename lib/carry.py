"""S08: a session call sends what it was given, a wait hands out what the messages carried, everything in its place.

The session functions are interpreted with a few objects and channels whose contents are labels: encoding, decoding,
converting, cloning and copying keep the label of what they work on.  Every message that is written and everything that
is handed out is compared, place by place, with what was given (or received)."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, NULL, UNDEF, eq, le, refine, assume_ne
from core import Base, show_trace
from pixels import atom
from result import Result

def E(*l): return ('ext', ('label',) + l)
def lab(st, v):
    """the label behind a pointer, None if unknown, () for none"""
    if v == NULL: return ()
    if is_ptr(v) and v[2] == 0 and v[1][0] == 'ext' and isinstance(v[1][1], tuple) and v[1][1][0] == 'label': return v[1][1][1:]
    if is_ptr(v) and v[2] == 0:
        z = dict(st.mon.get('made', ())).get(v[1])
        if z: return z
        m = (st.mem.get(v[1]) or {}).get('#enc')
        if m: return m
    return None
NEED = ('read_message', 'write_message', 'list_create', 'list_append', 'list_destroy', 'region_string', 'region_parse', 'image_encode', 'image_decode')

class Carry(Base):
    part_limit = 4000; max_states = 4000; max_heads = 4000; steps = 900000
    def __init__(s, P, entry, script=None):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models); s.C = core.consts(); s.script = script
        for n in dir(s):
            if n.startswith('m_'): s.models[n[2:]] = getattr(s, n)
        s.l_buf = P.field('string_list', 'buffer')[0]; s.l_pos = P.field('string_list', 'position')[0]; s.l_size = P.field('string_list', 'size')[0]
    def mon_key(s, st): return tuple(sorted(((k, v) for k, v in st.mon.items()), key=repr))
    def on_access(s, *a): pass
    def on_leak(s, *a): pass
    def on_freed(s, *a): pass
    def on_badfree(s, *a): pass
    def on_undef(s, I, st, fr, ins, w): st.mon['lost'] = True
    def on_null(s, I, st, fr, ins, p, k): st.mon['lost'] = True
    def new(s, st, tag, size=None):
        n = st.mon.get('n', 0); st.mon['n'] = n + 1
        o = ('heap', ('carry', tag), n)
        st.objs[o] = ('heap', size, 'live', ''); st.mem[o] = {}
        return o
    def ext(s, st, *l):
        o = E(*l)
        if o not in st.objs: st.objs[o] = ('ext', None, 'ext', ' '.join(map(str, l)))
        return ('p', o, 0)
    # ---- memory
    def m_malloc(s, I, st, fr, ins, a): return [(st, ('p', s.new(st, 'block', a[0] if is_num(a[0]) else None), 0))]
    def m_calloc(s, I, st, fr, ins, a): return libc.MODELS['calloc'](I, st, fr, ins, a)
    def m_realloc(s, I, st, fr, ins, a):
        o = s.new(st, 'block', a[1] if is_num(a[1]) else None)
        if is_ptr(a[0]): st.mem[o] = dict(st.mem.get(a[0][1]) or {})
        return [(st, ('p', o, 0))]
    def m_free(s, I, st, fr, ins, a): return [(st, None)]
    def same(s, I, st, fr, ins, a): return [(st, a[0])]
    m_strdup = m_trax_region_clone = same
    # ---- lists of texts
    def m_list_create(s, I, st, fr, ins, a):
        o = s.new(st, 'list'); b = s.new(st, 'texts')
        st.mem[o] = {s.l_buf: (('p', b, 0), 8), s.l_pos: (0, 4), s.l_size: (16, 4)}
        return [(st, ('p', o, 0))]
    def parts(s, st, p):
        m = st.mem.get(p[1]) if is_ptr(p) else None
        b = m.get(s.l_buf) if m else None; n = m.get(s.l_pos) if m else None
        return (m, b[0][1], n[0]) if b and n and is_ptr(b[0]) and is_int(n[0]) else (None, None, None)
    def m_list_append(s, I, st, fr, ins, a):
        m, b, n = s.parts(st, a[0])
        if m is None: st.mon['lost'] = True; return [(st, None)]
        st.mem[b] = dict(st.mem.get(b) or {}); st.mem[b][8 * n] = (a[1], 8)
        m = dict(m); m[s.l_pos] = (n + 1, 4); st.mem[a[0][1]] = m
        return [(st, None)]
    m_list_append_direct = m_list_append
    def m_list_get(s, I, st, fr, ins, a):
        m, b, n = s.parts(st, a[0])
        if m is None or not is_int(a[1]): st.mon['lost'] = True; return [(st, NULL)]
        return [(st, (st.mem.get(b) or {}).get(8 * a[1], (NULL, 8))[0] if 0 <= a[1] < n else NULL)]
    def m_list_reset(s, I, st, fr, ins, a):
        m, b, n = s.parts(st, a[0])
        if m is None: st.mon['lost'] = True
        else: m = dict(m); m[s.l_pos] = (0, 4); st.mem[a[0][1]] = m; st.mem[b] = {}
        return [(st, None)]
    def nulls(s, I, st, fr, ins, a):
        if is_ptr(a[0]): I.setmem(st, a[0][1], a[0][2], NULL, 8)
        return [(st, None)]
    m_list_destroy = m_trax_region_release = m_region_release = m_trax_image_release = m_trax_properties_release = nulls
    def texts(s, st, p):
        if p == NULL: return ()
        m, b, n = s.parts(st, p)
        if m is None: return None
        return tuple(lab(st, (st.mem.get(b) or {}).get(8 * i, (None, 8))[0]) for i in range(n))
    # ---- codecs
    def enc(kind):
        def f(s, I, st, fr, ins, a):
            l = lab(st, a[0]); t = st.copy(); out = [(t, NULL)] if kind == 'region' else []
            if l is None: st.mon['lost'] = True; return [(st, s.ext(st, 'text of something'))]
            return [(st, s.ext(st, 'text', l))] + out
        return f
    m_region_string = m_trax_region_encode = enc('region'); m_image_encode = enc('image')
    def decoded(s, st, v, kind):
        l = lab(st, v)
        if l is None: st.mon['lost'] = True
        return s.ext(st, kind, l)
    def m_region_parse(s, I, st, fr, ins, a):
        if not is_ptr(a[1]): st.mon['lost'] = True; return [(st, 1)]
        t = st.copy(); I.setmem(t, a[1][1], a[1][2], NULL, 8)
        I.setmem(st, a[1][1], a[1][2], s.decoded(st, a[0], 'region'), 8)
        return [(st, 1), (t, 0)]
    def m_trax_region_decode(s, I, st, fr, ins, a): return [(st.copy(), NULL), (st, s.decoded(st, a[0], 'region'))]
    def m_image_decode(s, I, st, fr, ins, a): return [(st.copy(), NULL), (st, s.decoded(st, a[0], 'image'))]
    def m_region_convert(s, I, st, fr, ins, a): return [(st.copy(), NULL), (st, a[0])]
    m_trax_region_convert = m_region_convert
    def m_trax_region_create_special(s, I, st, fr, ins, a): return [(st, s.ext(st, 'placeholder'))]
    m_region_create_special = m_trax_region_create_special
    def m_vsnprintf(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 200))]
    # ---- properties
    def m_trax_properties_create(s, I, st, fr, ins, a): return [(st, ('p', s.new(st, 'properties'), 0))]
    def m_trax_properties_enumerate(s, I, st, fr, ins, a):
        if is_ptr(a[2]) and is_ptr(a[0]): st.mon['copies'] = st.mon.get('copies', ()) + ((a[0][1], a[2][1]),)
        elif a[0] != NULL: st.mon['lost'] = True
        return [(st, None)]
    def m_trax_properties_append(s, I, st, fr, ins, a): return s.m_trax_properties_enumerate(I, st, fr, ins, [a[0], None, a[1]])
    def m_trax_properties_copy(s, I, st, fr, ins, a):
        p = ('p', s.new(st, 'properties'), 0); st.mon['copies'] = st.mon.get('copies', ()) + ((a[0][1] if is_ptr(a[0]) else None, p[1]),)
        return [(st, p)]
    def m_trax_properties_clear(s, I, st, fr, ins, a):
        if is_ptr(a[0]): st.mon['copies'] = tuple(c for c in st.mon.get('copies', ()) if c[1] != a[0][1])
        return [(st, None)]
    def contents(s, st, v, seen=()):
        """labels of the property sets whose entries are in a set"""
        if v == NULL: return frozenset()
        if not is_ptr(v) or v[1] in seen: return None if not is_ptr(v) else frozenset()
        out = set(); l = lab(st, v)
        if l and l[0] in ('props', 'in'): out.add(l)
        for a, b in st.mon.get('copies', ()):
            if b == v[1]:
                z = s.contents(st, ('p', a, 0), seen + (v[1],)) if a else None
                if z is None: return None
                out |= z
        return frozenset(out)
    def key(s, I, st, v):
        k = libc.cstr(I, st, v)
        if k is None: st.mon['lost'] = True
        return k.decode('latin1') if k is not None else '?'
    def m_trax_properties_set(s, I, st, fr, ins, a):
        st.mon['set'] = st.mon.get('set', ()) + ((a[0][1] if is_ptr(a[0]) else None, s.key(I, st, a[1]), lab(st, a[2])),)
        return [(st, None)]
    def m_trax_properties_set_int(s, I, st, fr, ins, a):
        st.mon['set'] = st.mon.get('set', ()) + ((a[0][1] if is_ptr(a[0]) else None, s.key(I, st, a[1]), ('number', a[2])),)
        return [(st, None)]
    def m_trax_properties_get(s, I, st, fr, ins, a):
        k = s.key(I, st, a[1]); t = st.copy(); z = dict(st.mon.get('has', ())).get(k)
        if z is not None: return [(st, s.ext(st, 'property', k) if z else NULL)]
        st.mon['has'] = st.mon.get('has', ()) + ((k, 1),); t.mon['has'] = t.mon.get('has', ()) + ((k, 0),)
        return [(t, NULL), (st, s.ext(st, 'property', k))]
    def m_trax_properties_get_int(s, I, st, fr, ins, a): return [(st, atom(st, 'number ' + s.key(I, st, a[1]), -1 << 31, (1 << 31) - 1))]
    def dec(kind):
        def f(s, I, st, fr, ins, a):
            l = lab(st, a[0])
            if a[0] == NULL: return [(st, 0)]
            v = atom(st, 'decoded %s %s' % (kind, '/'.join(map(str, l or ('?',)))), 1, 1 << 16)
            st.mon['dec'] = st.mon.get('dec', ()) + ((kind, l, v),); return [(st, v)]
        return f
    m_region_formats_decode, m_image_formats_decode, m_channels_decode = dec('regions'), dec('images'), dec('channels')
    def encf(kind):
        def f(s, I, st, fr, ins, a):
            if is_ptr(a[1]): st.mem[a[1][1]] = {'*': True, '#enc': (kind, a[0])}
            else: st.mon['lost'] = True
            return [(st, None)]
        return f
    m_region_formats_encode, m_image_formats_encode, m_channels_encode = encf('regions'), encf('images'), encf('channels')
    def stream(s, I, st, fr, ins, a): return [(st, s.ext(st, 'stream'))]
    m_create_message_stream_file = m_create_message_stream_socket_connect = m_create_message_stream_socket_accept = stream
    def m_destroy_message_stream(s, I, st, fr, ins, a): return [(st, None)]
    # ---- messages
    def m_write_message(s, I, st, fr, ins, a):
        st.note('%s: writes message type %s' % (fr.f.where(ins), T.show(a[2])))
        st.mon['msgs'] = st.mon.get('msgs', ()) + ((a[2] if is_int(a[2]) else None, s.texts(st, a[3]), s.contents(st, a[4]), fr.f.where(ins), a[4][1] if is_ptr(a[4]) else None),)
        return [(st, None)]
    def m_read_message(s, I, st, fr, ins, a):
        k = st.mon.get('reads', 0); st.mon['reads'] = k + 1
        m, b, n = s.parts(st, a[2])
        if m is None or not is_ptr(a[3]): st.mon['lost'] = True; return [(st, s.C['TRAX_ERROR'])]
        out = []
        for ty, nargs in s.script(k):
            t = st.copy()
            t.note('%s: message %d of the peer: %s with %d arguments' % (fr.f.where(ins), k, ty, nargs))
            t.mem[b] = dict(t.mem.get(b) or {})
            for i in range(nargs): t.mem[b][8 * (n + i)] = (s.ext(t, 'arg', k, i), 8)
            x = dict(m); x[s.l_pos] = (n + nargs, 4); t.mem[a[2][1]] = x
            src = s.ext(t, 'in', k)
            t.mon['copies'] = t.mon.get('copies', ()) + ((src[1], a[3][1]),)
            t.mon['got'] = t.mon.get('got', ()) + ((ty, nargs),)
            out.append((t, s.C['TRAX_' + ty]))
        return out

class World(object):
    def __init__(s, P, r): s.P = P; s.r = r; s.C = core.consts(); s.F = lambda c, m: P.field(c, m)[0]; s.paths = 0
    def fn(s, name):
        L = [f for f in s.P.bysrc.get(name, []) if not f.decl]
        if not L: raise build.Broken('%s is not defined' % name)
        return L[0]
    def handle(s, st, server, version, channels, multi, objects):
        F, P, C = s.F, s.P, s.C
        h, me = ('ext', 'handle'), ('ext', 'metadata')
        st.objs[h] = ('ext', P.didx['trax_handle']['size'], 'ext', 'handle'); st.objs[me] = ('ext', P.didx['trax_metadata']['size'], 'ext', 'metadata')
        st.mem[h] = {F('trax_handle', 'flags'): (C['TRAX_FLAG_VALID'] | (C['TRAX_FLAG_SERVER'] if server else 0), 4), F('trax_handle', 'version'): (version, 4),
                     F('trax_handle', 'stream'): (('p', E('stream'), 0), 8), F('trax_handle', 'metadata'): (('p', me, 0), 8), F('trax_handle', 'error'): (NULL, 8), F('trax_handle', 'objects'): (objects, 4)}
        st.objs[E('stream')] = ('ext', None, 'ext', 'stream')
        st.mem[me] = {F('trax_metadata', 'channels'): (channels, 4), F('trax_metadata', 'flags'): (C['TRAX_METADATA_MULTI_OBJECT'] if multi else 0, 4),
                      F('trax_metadata', 'format_region'): (atom(st, 'formats', 0, 255), 4), F('trax_metadata', 'format_image'): (atom(st, 'image formats', 0, 255), 4)}
        return ('p', h, 0)
    def ext(s, st, *l):
        st.objs[E(*l)] = ('ext', None, 'ext', ' '.join(map(str, l))); return ('p', E(*l), 0)
    def images(s, st):
        o = ('ext', 'images'); st.objs[o] = ('ext', s.P.didx['trax_image_list']['size'], 'ext', 'images')
        st.mem[o] = {8 * i: (s.ext(st, 'image', i), 8) for i in range(s.C['TRAX_CHANNELS'])}
        return ('p', o, 0)
    def objects(s, st, n):
        F = s.F; o, a, b = ('ext', 'objects'), ('ext', 'regions'), ('ext', 'properties')
        for x, z in ((o, s.P.didx['trax_object_list']['size']), (a, 8 * n), (b, 8 * n)): st.objs[x] = ('ext', z, 'ext', x[1])
        st.mem[o] = {F('trax_object_list', 'size'): (n, 4), F('trax_object_list', 'regions'): (('p', a, 0), 8), F('trax_object_list', 'properties'): (('p', b, 0), 8)}
        st.mem[a] = {8 * i: (s.ext(st, 'region', i), 8) for i in range(n)}
        st.mem[b] = {8 * i: (s.ext(st, 'props', i), 8) for i in range(n)}
        return ('p', o, 0)
    def out(s, st, name):
        o = ('ext', name); st.objs[o] = ('ext', 8, 'ext', name); st.mem[o] = {}; return ('p', o, 0)
    def run(s, name, st, args, script=None):
        f = s.fn(name)
        if f.nargs != len(args): s.r.inconclusive.append('%s takes other arguments' % name); return None, []
        c = Carry(s.P, name, script); I = Interp(s.P, c)
        try: outs = I.call_function(f, st, args, 'API', 0, ())
        except Budget: s.r.inconclusive.append('%s: analysis did not finish' % name); return c, []
        if I.incomplete: s.r.inconclusive += ['%s: %s' % (name, x[-150:]) for x in I.incomplete[:2]]
        outs = [(t, v) for t, v, k in outs if k == 'ret']; s.paths += len(outs)
        return c, outs
    def ob(s, st, ok, what, name, key, where=None):
        if st.mon.get('lost') and ok is False: ok = None
        d = show_trace(st.notes(12))
        f = s.fn(name); w = where
        if not w:
            for b in f.blocks:
                for x in b:
                    w = f.where(x)
                    if not w.endswith('?'): break
                else: continue
                break
        s.r.ob(ok, w, name, what, d, '%s-%s' % (name, key))
    # ---- sending
    def sent(s, st, name, want, title):
        msgs = [m for m in st.mon.get('msgs', ()) if not (m[0] == s.C['TRAX_INITIALIZE'] and m[1] == () and not m[2])]
        names = {s.C[n]: n for n in ('TRAX_INITIALIZE', 'TRAX_FRAME', 'TRAX_STATE')}
        if any(m[0] is None for m in msgs): s.ob(st, None, '%s: which messages are sent' % title, name, 'types'); return
        s.ob(st, [m[0] for m in msgs] == [w[0] for w in want], '%s: the messages sent are %s' % (title, ', '.join(names.get(m[0], str(m[0])) for m in msgs)), name, 'messages', msgs[-1][3] if msgs else None)
        for i, (m, w) in enumerate(zip(msgs, want)):
            n = '%s: message %d (%s)' % (title, i, names.get(m[0], m[0]))
            if m[1] is None or None in m[1]: s.ob(st, None, n + ': its arguments', name, 'arguments')
            else: s.ob(st, m[1] == w[1], '%s carries %s instead of %s' % (n, words(m[1]), words(w[1])), name, 'arguments', m[3])
            s.ob(st, None if m[2] is None else m[2] == w[2], '%s carries the properties %s instead of %s' % (n, words(m[2] or ()), words(w[2])), name, 'properties', m[3])
def words(L): return ', '.join(w1(x) for x in sorted(L, key=repr) if x) if isinstance(L, frozenset) else '[%s]' % ', '.join(w1(x) for x in L)
def w1(x):
    if isinstance(x, tuple): return ' '.join(w1(y) for y in x) or 'nothing'
    return str(x)

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('Abstract interpretation of every session call with objects, images and property sets that carry labels through encoding, decoding, conversion and copying. Rule: each message carries, place by place, the text of the image of each declared channel in channel order, the text of the i-th region, the properties given with it; each wait hands out the decoded arguments and the properties of the messages in their places; setup sends and reads each declared value under its key.')
    gone = [n for n in NEED if not [f for f in P.bysrc.get(n, ()) if not f.decl]]
    W = World(P, r); C = W.C
    PUB = ('trax_client_initialize', 'trax_client_frame', 'trax_client_wait', 'trax_server_wait_sot', 'trax_server_wait_mot', 'trax_server_reply_sot', 'trax_server_reply_mot')
    for n in PUB: W.fn(n)
    r.assumptions = ['encoding, decoding, converting and cloning keep what they work on (W04, D03-D06)', 'a copy of a property set has its entries (D02)', 'up to three objects; the loops over objects are uniform']
    if gone: r.inconclusive.append('functions the analysis rests on do not exist: %s' % ', '.join(gone)); return r
    NCH = C['TRAX_CHANNELS']; chans = lambda c: [i for i in range(NCH) if c >> i & 1]
    allc = (1 << NCH) - 1; CH = sorted({1, allc, allc & ~2, 2} | (set(range(1, allc + 1)) if tier == 'thorough' else set()))
    N = (1, 2, 3) if tier != 'thorough' else (1, 2, 3, 4)
    imgs = lambda c: tuple(('text', ('image', i)) for i in chans(c))
    props = lambda st: W.ext(st, 'props', 'given')
    given = frozenset([('props', 'given')])
    ok = lambda st, v: is_num(v) and eq(st, v, C['TRAX_OK']) is True
    cnt = {}
    def go(name, st, args, script=None):
        c, outs = W.run(name, st, args, script); cnt[name] = cnt.get(name, 0) + len(outs); return c, outs
    INI, FRA, STA = C['TRAX_INITIALIZE'], C['TRAX_FRAME'], C['TRAX_STATE']
    # ---- the client sends
    for c in CH:
        for n, act in [(n, a) for n in N for a in (0, 2)]:
            st = core.new_state(); h = W.handle(st, False, 4, c, True, act)
            for t, v in go('trax_client_initialize', st, [h, W.images(st), W.objects(st, n), props(st)])[1]:
                if ok(t, v): W.sent(t, 'trax_client_initialize', [(INI, (('text', ('region', i)),), frozenset([('props', i)])) for i in range(n)] + [(FRA, imgs(c), given)], '%d objects, channels %d' % (n, c))
            st = core.new_state(); h = W.handle(st, False, 4, c, True, act)
            for t, v in go('trax_client_frame', st, [h, W.images(st), W.objects(st, n), props(st)])[1]:
                if ok(t, v): W.sent(t, 'trax_client_frame', [(INI, (('text', ('region', i)),), frozenset([('props', i)])) for i in range(n)] + [(FRA, imgs(c), given)], '%d new objects, channels %d' % (n, c))
        st = core.new_state(); h = W.handle(st, False, 3, c, False, 0)
        for t, v in go('trax_client_initialize', st, [h, W.images(st), W.objects(st, 1), props(st)])[1]:
            if ok(t, v): W.sent(t, 'trax_client_initialize', [(INI, imgs(c) + (('text', ('region', 0)),), given)], 'legacy session, channels %d' % c)
        for ver in (3, 4):
            st = core.new_state(); h = W.handle(st, False, ver, c, False, 1)
            for t, v in go('trax_client_frame', st, [h, W.images(st), NULL, props(st)])[1]:
                if ok(t, v): W.sent(t, 'trax_client_frame', [(FRA, imgs(c), given)], 'no new objects, version %d, channels %d' % (ver, c))
    # ---- the server replies
    for n in N:
        st = core.new_state(); h = W.handle(st, True, 4, 1, True, n)
        for t, v in go('trax_server_reply_mot', st, [h, W.objects(st, n)])[1]:
            if ok(t, v): W.sent(t, 'trax_server_reply_mot', [(STA, (('text', ('region', i)),), frozenset([('props', i)])) for i in range(n)], '%d objects' % n)
    st = core.new_state(); h = W.handle(st, True, 3, 1, False, 1); reg = W.ext(st, 'region', 0)
    for t, v in go('trax_server_reply_sot', st, [h, reg, props(st)])[1]:
        if ok(t, v): W.sent(t, 'trax_server_reply_sot', [(STA, (('text', ('region', 0)),), given)], 'a region')
    # ---- waits
    def cell(t, p, off=0):
        x = (t.mem.get(p[1]) or {}).get((p[2] if is_int(p[2]) else 0) + off) if is_ptr(p) else None
        return x[0] if x else None
    def is_images(t, name, p, c, k, title):
        for i in range(NCH):
            v = cell(t, p, 8 * i); l = lab(t, v) if v is not None else None
            want = ('image', ('arg', k, chans(c).index(i))) if i in chans(c) else ()
            W.ob(t, None if l is None else l == want, '%s: the image of channel %d is %s instead of %s' % (title, i, w1(l or ()), w1(want)), name, 'image')
    def is_props(t, c, name, v, want, title, key='properties'):
        z = c.contents(t, v) if v is not None else None
        W.ob(t, None if z is None else z == want, '%s: they are %s instead of %s' % (title, words(z or frozenset()), words(want)), name, key)
    def is_objects(t, c, name, lst, regions, title):
        F = W.F; n = cell(t, lst, F('trax_object_list', 'size')); a = cell(t, lst, F('trax_object_list', 'regions')); b = cell(t, lst, F('trax_object_list', 'properties'))
        W.ob(t, None if n is None or not is_int(n) else n == len(regions), '%s: %s objects instead of %d' % (title, T.show(n) if n is not None else '?', len(regions)), name, 'count')
        for i, (l, pr) in enumerate(regions):
            x = cell(t, a, 8 * i) if a is not None else None; y = lab(t, x) if x is not None else None
            W.ob(t, None if y is None else y == l, '%s: object %d is %s instead of %s' % (title, i, w1(y or ()), w1(l)), name, 'region')
            q = cell(t, b, 8 * i) if b is not None else None
            is_props(t, c, name, q, pr, '%s: properties of object %d' % (title, i), 'object-properties')
    def empty(st): o = ('ext', 'given set'); st.objs[o] = ('ext', None, 'ext', 'given set'); return ('p', o, 0)
    for c in CH:
        k = len(chans(c))
        st = core.new_state(); h = W.handle(st, True, 3, c, False, 1); im = W.out(st, 'image output'); ro = W.out(st, 'region output'); pr = empty(st)
        z, outs = go('trax_server_wait_sot', st, [h, im, ro, pr], lambda i: [('FRAME', k), ('INITIALIZE', k + 1), ('QUIT', 0)])
        for t, v in outs:
            name = 'trax_server_wait_sot'; ty = [x for x in ('FRAME', 'INITIALIZE', 'QUIT') if is_num(v) and eq(t, v, C['TRAX_' + x]) is True]
            if not ty: continue
            title = 'legacy wait, channels %d, %s' % (c, ty[0].lower())
            if ty[0] != 'QUIT': is_images(t, name, cell(t, im), c, 0, title)
            if ty[0] == 'INITIALIZE':
                l = lab(t, cell(t, ro)) if cell(t, ro) is not None else None
                W.ob(t, None if l is None else l == ('region', ('arg', 0, k)), '%s: the region is %s' % (title, w1(l or ())), name, 'region')
            is_props(t, z, name, pr, frozenset([('in', 0)]), title + ': properties')
        top = 3 if tier != 'thorough' else 4
        for act in (0, 1):
            st = core.new_state(); h = W.handle(st, True, 4, c, True, act); im = W.out(st, 'image output'); oo = W.out(st, 'object output'); pr = empty(st)
            z, outs = go('trax_server_wait_mot', st, [h, im, oo, pr], lambda i: ([('INITIALIZE', 1)] if i < top else []) + [('FRAME', k)])
            for t, v in outs:
                name = 'trax_server_wait_mot'
                if not (is_num(v) and (eq(t, v, C['TRAX_FRAME']) is True or eq(t, v, C['TRAX_INITIALIZE']) is True)): continue
                got = t.mon.get('got', ()); m = len(got) - 1; title = 'wait after %d new objects, channels %d' % (m, c)
                if not got or got[-1][0] != 'FRAME': continue
                is_images(t, name, cell(t, im), c, m, title)
                is_props(t, z, name, pr, frozenset([('in', m)]), title + ': properties of the frame')
                if m: is_objects(t, z, name, cell(t, oo), [(('region', ('arg', i, 0)), frozenset([('in', i)])) for i in range(m)], title)
    for n in N:
        st = core.new_state(); h = W.handle(st, False, 4, 1, True, n); oo = W.out(st, 'object output'); pr = empty(st)
        z, outs = go('trax_client_wait', st, [h, oo, pr], lambda i: [('STATE', 1), ('QUIT', 0)])
        for t, v in outs:
            name = 'trax_client_wait'
            if is_num(v) and eq(t, v, STA) is True: is_objects(t, z, name, cell(t, oo), [(('region', ('arg', i, 0)), frozenset([('in', i)])) for i in range(n)], 'wait for %d objects' % n)
            elif is_num(v) and eq(t, v, C['TRAX_QUIT']) is True: is_props(t, z, name, pr, frozenset([('in', t.mon.get('reads', 1) - 1)]), 'quit while %d objects are tracked: properties' % n)
    setup(W, P, C, r, cell)
    r.inconclusive = sorted(set(r.inconclusive))
    r.coverage = {'calls': cnt, 'ways_out': W.paths, 'channel_sets': CH, 'objects': list(N)}
    r.sample({'call': 'trax_client_frame', 'rule': 'message i: text of region i with properties i; last: images in channel order with the given properties'})
    return r

def setup(W, P, C, r, cell):
    F = W.F; log = ('ext', 'logging')
    texts = (('tracker_name', 'trax.name'), ('tracker_description', 'trax.description'), ('tracker_family', 'trax.family'))
    nums = (('format_region', 'trax.region', 'regions'), ('format_image', 'trax.image', 'images'), ('channels', 'trax.channels', 'channels'))
    for name in ('trax_server_setup_file_v', 'trax_client_setup_file'):
        st = core.new_state(); st.objs[log] = ('ext', None, 'ext', 'logging'); fd = atom(st, 'descriptor', 0, 1 << 20); lp = ('p', log, 0)
        server = name.startswith('trax_server')
        if server:
            me = ('ext', 'metadata'); st.objs[me] = ('ext', P.didx['trax_metadata']['size'], 'ext', 'metadata')
            m = {F('trax_metadata', f): (W.ext(st, 'declared', f), 8) for f, k in texts}
            vals = {f: atom(st, 'declared %s' % f, 1, 255) for f, k, e in nums}
            for f, k, e in nums: m[F('trax_metadata', f)] = (vals[f], 4)
            m[F('trax_metadata', 'custom')] = (W.ext(st, 'props', 'custom'), 8); m[F('trax_metadata', 'flags')] = (atom(st, 'declared flags', 0, 1), 4)
            st.mem[me] = m; st.mon['flags'] = m[F('trax_metadata', 'flags')][0]
            args = [('p', me, 0), fd, fd, lp, 4]
        else: args = [fd, fd, lp]
        c, outs = W.run(name, st, args, lambda i: [('HELLO', 0)])
        for t, v in outs:
            if not is_ptr(v): continue
            me2 = cell(t, v, F('trax_handle', 'metadata'))
            for f, k in texts:
                x = cell(t, me2, F('trax_metadata', f)) if me2 is not None else None; l = lab(t, x) if x is not None else None
                z = 1 if server else dict(t.mon.get('has', ())).get(k)
                want = ('declared', f) if server else ('property', k) if z else ()
                W.ob(t, None if l is None or z is None and l in ((), ('property', k)) else l == want, 'the %s of the session is %s instead of %s' % (f, w1(l or ()), w1(want)), name, 'text')
            for f, k, e in nums:
                x = cell(t, me2, F('trax_metadata', f)) if me2 is not None else None
                if x is None or not is_num(x): W.ob(t, None, 'the %s of the session' % f, name, 'number'); continue
                if server: W.ob(t, True if eq(t, x, vals[f]) is True else False if x in [vals[g] for g in vals if g != f] else None, 'the %s of the session is %s' % (f, T.show(x)), name, 'number')
                else:
                    z = dict(t.mon.get('has', ())).get(k); dec = t.mon.get('dec', ())
                    mine = [v for k2, l2, v in dec if k2 == e and l2 == ('property', k)]; other = [(k2, l2) for k2, l2, v in dec if (k2, l2) != (e, ('property', k)) and not is_int(x) and eq(t, v, x) is True]
                    ver = cell(t, v, F('trax_handle', 'version')); old = k == 'trax.channels' and ver is not None and is_num(ver) and le(t, ver, 1) is True
                    if old: okk = True if is_int(x) and x == C['TRAX_CHANNEL_COLOR'] else None
                    elif any(eq(t, v, x) is True for v in mine): okk = True
                    elif is_int(x): okk = None if z is None else not z
                    else: okk = False if other else None
                    W.ob(t, okk, 'the %s of the session is %s' % (f, 'read as %s from %s' % (other[0][0], w1(other[0][1])) if other else T.show(x) + ' whatever the property %s says' % k), name, 'number')
            if server:
                ms = t.mon.get('msgs', ())
                W.ob(t, len(ms) == 1 and ms[0][0] == C['TRAX_HELLO'] and not ms[0][1], 'the first message is not a hello without arguments', name, 'hello')
                if len(ms) == 1:
                    sets = {}
                    for o, k, l in t.mon.get('set', ()):
                        if o == ms[0][4]: sets[k] = l
                    for f, k in texts: W.ob(t, None if k in sets and sets[k] is None else sets.get(k) == ('declared', f), 'the hello message declares %s as %s' % (k, w1(sets.get(k) or ())), name, 'declares', ms[0][3])
                    for f, k, e in nums: W.ob(t, None if k in sets and sets[k] is None else sets.get(k) == (e, vals[f]), 'the hello message declares %s as %s' % (k, w1(sets.get(k) or ())), name, 'declares', ms[0][3])
                    z = c.contents(t, ('p', ms[0][4], 0)) if ms[0][4] else None
                    W.ob(t, None if z is None else z == frozenset([('props', 'custom')]), 'the hello message carries the further properties %s instead of the tracker\'s own' % words(z or frozenset()), name, 'custom', ms[0][3])
                    z = sets.get('trax.multiobject'); fl = t.mon['flags']
                    want = 1 if eq(t, fl, 1) is True else 0 if eq(t, fl, 0) is True else None
                    W.ob(t, None if want is None or z is not None and not (z[0] == 'number' and is_int(z[1])) else bool(z and z[1]) == bool(want), 'the hello message says %s about several objects' % (z,), name, 'multi', ms[0][3])
                    z = sets.get('trax.version'); W.ob(t, None if z is None else z == ('number', 4), 'the hello message declares the version %s' % w1(z or ()), name, 'version', ms[0][3])
            else:
                x = cell(t, me2, F('trax_metadata', 'custom')) if me2 is not None else None; z = c.contents(t, x) if x is not None else None
                W.ob(t, None if z is None else z == frozenset([('in', 0)]), 'the further properties of the session are %s' % words(z or frozenset()), name, 'custom')
                ver = cell(t, v, F('trax_handle', 'version')); a = T.show(ver) if ver is not None else '?'
                W.ob(t, True if 'number trax.version' in a else None if not is_int(ver) and 'number' not in a else False, 'the version of the session is %s' % a, name, 'version')
if __name__ == '__main__':
    import time; t0 = time.time()
    r = run('S08', 'quick')
    print(r.coverage); print(r.obligations, r.discharged, '%.1f' % (time.time() - t0))
    for v in r.violations[:12]: print(v.text())
    for i in r.inconclusive[:20]: print('?', i)
