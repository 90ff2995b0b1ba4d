"""C++ wrappers (src/traxpp.cpp): shared ownership (B03), empty wrappers (B04), copy on write (B05).

Every public operation of the wrapper classes is interpreted abstractly, with the real code of the wrapper layer
(constructors, acquire/release, wrap, cleanup, special members of list elements), from every state a wrapper can be in:
  E  empty (no counter, no native object)
  U  sole owner (counter 1)
  S  shared with other wrappers the call does not see (counter h + 1, h >= 1 unknown)
with every aliasing of same-class operands (same object, same counter) and, for lists, with one arbitrary element (index K)
followed exactly through std::vector, in state E/U/S itself.  Native functions are replaced by their ownership contract
(creates / releases / borrows / changes).  The states are closed: what holds at every exit is what is assumed on entry, so the
result extends to every sequence of operations."""
import os, re, multiprocessing
import build, ir, absint, libc, core
import terms as T
from terms import *
from absint import Client, Interp, Budget, eq, le, lb, ub, assume_eq, assume_ne, assume_le, refine, UNDEF, NULL

HANDLES = ('Client', 'ServerSOT', 'ServerMOT')
VALUES = ('Metadata', 'Image', 'ImageList', 'ObjectList', 'Region', 'Properties')
CLASSES = VALUES + HANDLES

CREATE = {'trax_metadata_create': 0, 'trax_image_list_create': 0, 'trax_object_list_create': 0, 'trax_properties_create': 0, 'trax_properties_copy': 0,
          'trax_region_create_special': 0, 'trax_region_create_rectangle': 0, 'trax_region_create_polygon': 0, 'trax_region_create_mask': 0,
          'trax_region_clone': 2, 'trax_region_convert': 1, 'trax_region_decode': 1, 'trax_region_get_bounds': 1,
          'trax_image_create_path': 1, 'trax_image_create_url': 1, 'trax_image_create_memory': 1, 'trax_image_create_buffer': 1,
          'trax_client_setup_file': 1, 'trax_client_setup_socket': 1, 'trax_server_setup': 1, 'trax_server_setup_v': 1, 'trax_server_setup_file': 1, 'trax_server_setup_file_v': 1,
          'trax_properties_get': 1, 'trax_region_encode': 1}
RELEASE = ('trax_metadata_release', 'trax_image_release', 'trax_properties_release', 'trax_region_release', 'trax_cleanup', 'trax_object_list_release', 'trax_image_list_release')
# functions that change the object given as argument number n
MUTATE = {'trax_region_set_special': 0, 'trax_region_set_rectangle': 0, 'trax_region_set_polygon_point': 0, 'trax_region_write_mask_row': 0,
          'trax_properties_set': 0, 'trax_properties_set_int': 0, 'trax_properties_set_float': 0, 'trax_properties_clear': 0, 'trax_properties_append': 1,
          'trax_object_list_set': 0, 'trax_object_list_append': 0, 'trax_image_list_set': 0, 'trax_image_list_clear': 0,
          'trax_client_wait': 2, 'trax_server_wait_sot': 3, 'trax_server_wait_mot': 3}
STRINGS = ('trax_properties_get', 'trax_region_encode')
WAITS = {'trax_client_wait': ('olist',), 'trax_server_wait_sot': ('ilist', 'region'), 'trax_server_wait_mot': ('ilist', 'olist')}
CNAME = {'Metadata': 'trax_metadata', 'Image': 'trax_image', 'ImageList': 'trax_image_list', 'ObjectList': 'trax_object_list', 'Region': 'trax_region', 'Properties': 'trax_properties',
         'Client': 'trax_handle', 'ServerSOT': 'trax_handle', 'ServerMOT': 'trax_handle', 'Handle': 'trax_handle'}
def kindof(t):
    if t.rstrip('&') in ('string', 'std::string') or t in ('char*',): return 'text'
    if t.endswith('*'): return 'place'
    if t in ('int', 'float', 'unsigned int', 'bool'): return 'number'
    return t
EXCHANGE = ('trax_client_initialize', 'trax_client_frame', 'trax_server_reply_sot', 'trax_server_reply_mot', 'trax_get_parameter', 'trax_set_parameter', 'trax_terminate')
ITER = 1 << 20   # where iterators of a wrapper vector start
KO = T.A(('sym', 'index', 0)); KI = T.A(('sym', 'channel', 0))

# ------------------------------------------------------------------------------------------------ null tolerance of native functions
_tol = {}
def _reports(prog, name, i, jobs=None):
    import sessions
    out = set()
    f = prog.funcs[name]
    def one(c, st, args):
        if i is not None: args = list(args); args[i] = NULL
        I, outs = core.run(prog, c, name, st, args)
        for k, r in c.reports.items():
            if r.kind.split('+')[0] in ('null', 'assert'): out.add((r.kind.split('+')[0], r.where, r.what))
        return outs is not None
    js = [j for j in sessions.jobs('quick') if j[0] == name and j[5] in (1, 7)]
    if js:
        for j in js:
            c, st, args = sessions.initial(prog, j); one(c, st, args)
    else:
        c = core.Session(prog, 'client'); c.has_handle = False; c.steps = 30000; st = core.new_state()
        one(c, st, [('p', ('arg', k), 0) if a[1] == 'ptr' else T.A(('sym', 'a%d' % k, 0)) for k, a in enumerate(f.args)])
    return out
def tolerates(prog, name, i):
    """does the native function accept NULL for this parameter? True / False / None (not known)"""
    k = (name, i)
    if k not in _tol:
        f = prog.funcs.get(name)
        if f is None or f.decl: _tol[k] = None
        else:
            try: _tol[k] = not (_reports(prog, name, i) - _reports(prog, name, None))
            except (build.Broken, KeyError): _tol[k] = None
    return _tol[k]

# ------------------------------------------------------------------------------------------------ class layouts
class Layout(object):
    def __init__(s, prog):
        s.cls = {}
        for c in CLASSES:
            t = prog.didx.get(c)
            if t is None: raise build.Broken('class trax::%s is gone' % c)
            vt = '_ZTVN4trax%d%sE' % (len(c), c)
            base = c
            native = None; vecs = []
            seen = 0
            while t is not None and seen < 4:
                nxt = None
                for m in t['members']:
                    if m[0] == '<base>':
                        if m[3] != 'Wrapper': nxt = prog.didx.get(m[3])
                    elif m[3].startswith('vector<trax::'): vecs.append((m[1], re.match(r'vector<trax::(\w+)', m[3]).group(1)))
                    elif m[3].endswith('*') and native is None: native = m[1]
                t = nxt; seen += 1
            if native is None: raise build.Broken('trax::%s has no native object' % c)
            s.cls[c] = (native, tuple(vecs), prog.didx[c]['size'], vt)
        s.pn = prog.field('Wrapper', 'pn')[0]
        s.vt = {('_ZTVN4trax%d%sE' % (len(c), c)): c for c in CLASSES + ('Handle',)}
        s.ol = (prog.field('trax_object_list', 'size')[0], prog.field('trax_object_list', 'regions')[0], prog.field('trax_object_list', 'properties')[0])
        s.il = prog.field('trax_image_list', 'images')[0]
        s.cls['Handle'] = s.cls['Client']

class Stop(Exception): pass

class WClient(Client):
    steps = 60000
    inline_depth = 16
    keep_params = True
    def __init__(s, prog, lay, nprog, entry):
        s.prog = prog; s.lay = lay; s.nprog = nprog; s.entry = entry
        s.viol = {}; s.obl = {}; s.unk = {}
        s.models = dict(libc.MODELS)
        for n in ('_Znwm', '_Znam'): s.models[n] = libc.m_malloc
        for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'): s.models[n] = libc.m_free
        s.special = {}
        for f in prog.funcs.values():
            if f.decl or not f.cls: continue
            if 'D0Ev' in f.name: continue
            s.special.setdefault(f.dem, f)
        s.b4 = False
        s.empty_ok = None
    # --- obligations
    def ob(s, prop, ok, where, func, what, st=None, I=None):
        o = s.obl.setdefault(prop, [0, 0, 0]); o[0 if ok is True else 1 if ok is False else 2] += 1
        if ok is False:
            s.viol.setdefault((prop, where, what), (func, core.show_trace(st.notes()) if st is not None else [], list(I.callstack[1:]) if I is not None else []))
        elif ok is None: s.unk.setdefault((prop, where, what), 1)
    def at(s, prop, ok, I, st, fr, ins, what): s.ob(prop, ok, fr.f.where(ins), fr.f.dem, what, st, I)
    # --- hooks
    def should_inline(s, I, st, f, depth):
        if not f.file or not (f.file.startswith('/usr/') or '/include/c++/' in f.file): return True
        if '__gnu_cxx::' in f.dem.split('(')[0]: return True
        return f.src in ('move', 'forward', 'addressof', '__addressof') or f.src.startswith(('swap', 'move<', 'forward<', 'exchange', '__exchange')) and 'vector' not in f.dem
    splits = True
    keep = (KO, KI)
    def split_access(s, I, st, fr, ins, operand):
        '''an access to an element of a native list: one state per position relative to the followed one'''
        if operand[0] != '%': return None
        p = st.regs.get(operand[1])
        if not is_ptr(p) or p[1][0] != 'heap': return None
        r = st.objs.get(p[1])
        if r is None or r[2] == 'freed' or r[3].__class__ is not tuple or r[3][0] not in ('array', 'ilist'): return None
        K, base = (KI, s.lay.il) if r[3][0] == 'ilist' else (KO, 0)
        at = add(base, mul(K, 8))
        if p[2] == at: return None
        d = sub(p[2], base)
        if is_int(d) and d % 8: return None
        if not is_int(d) and any(k % 8 for k in to_dict(d).values()): return None
        q = I.exact_div(d, 8)
        if ins.op == 'store': s.on_store(I, st, fr, ins, p, None)
        out = []
        for t, w in split(st, q, K):
            if w == 0: t.regs[operand[1]] = ('p', p[1], at)
            elif ins.op == 'load': t.regs[ins.id] = I.typed(t, I.fresh(t, (fr.ctx, ins.id, 'otherelem')), ins.t, ins.sz)
            out.append((t, w != 0))
        return out
    def on_null(s, I, st, fr, ins, p, k): s.at('B04' if s.b4 else 'pre', False, I, st, fr, ins, 'null pointer is used (%s)' % k)
    def on_freed(s, I, st, fr, ins, p, k): s.at('B03', False, I, st, fr, ins, 'an object that was already released is used (%s)' % k)
    def on_badfree(s, I, st, fr, ins, p): s.at('B03', False, I, st, fr, ins, 'memory that is not owned is freed')
    def on_undef(s, I, st, fr, ins, w): s.at('B03', False, I, st, fr, ins, 'a field that was never set is used (%s)' % w)
    def on_leak(s, I, st, o, w):
        kind = st.objs[o][3]
        if isinstance(kind, tuple):
            if kind[0] == 'string': return
            what = 'the native object created at %s' % kind[1]
        else: what = 'memory allocated at %s' % kind
        s.ob('B03', False, w, I.callstack[-1] if I.callstack else s.entry, '%s is lost without being released' % what, st, I)
    def owner_count(s, st, o):
        """the counter objects of the wrappers that refer to native o"""
        out = set()
        for wo, off, c in s.wrappers(st):
            m = st.mem[wo]
            n = m.get(off + s.lay.cls[c][0]); p = m.get(off + s.lay.pn)
            if n is not None and n[0] == ('p', o, 0) and p is not None and is_ptr(p[0]): out.add(p[0][1])
        return out
    def wrappers(s, st):
        for o, m in list(st.mem.items()):
            for off, x in list(m.items()):
                if is_int(off) and isinstance(x, tuple) and x[0].__class__ is tuple and x[0][0] == 'p' and x[0][1][0] == 'G' and x[0][1][1] in s.lay.vt:
                    yield o, off, s.lay.vt[x[0][1][1]]
    def shared(s, I, st, fr, ins, o, what):
        for c in s.owner_count(st, o):
            v = (st.mem.get(c) or {}).get(0)
            if v is None: continue
            r = eq(st, v[0], 1) if is_num(v[0]) else None
            if r is not True and is_num(v[0]) and le(st, 2, v[0]) is True: r = False
            s.at('B05', r, I, st, fr, ins, '%s while other wrappers share it' % what)
    def on_store(s, I, st, fr, ins, p, v):
        if not is_ptr(p): return
        o = p[1]
        if o[0] != 'heap': return
        # stores into a list's native structure or its arrays
        for l, m in list(st.mem.items()):
            if l[0] == 'heap' and st.objs.get(l, (0, 0, 0, ''))[3].__class__ is tuple and st.objs[l][3][0] in ('olist', 'ilist'):
                if o == l or any(isinstance(x, tuple) and x[0] == ('p', o, 0) and st.objs[l][3][0] == 'olist' and k in s.lay.ol[1:] for k, x in m.items()):
                    s.shared(I, st, fr, ins, l, 'an element of a list is replaced')
    # --- native objects
    def native(s, I, st, fr, ins, kind, n=None):
        o = I.newobj(st, 'heap', ('nat', kind) + libc.site(fr, ins), None)
        return s.fill(I, st, o, kind, fr.f.where(ins), n)
    def fill(s, I, st, o, kind, where, n=None):
        """contents of a freshly created native object; list of states"""
        st.objs[o] = ('heap', None, 'live', (kind, where))
        st.mem[o] = {'*': True}
        if kind == 'ilist':
            st.mem[o] = {'*': True, add(s.lay.il, mul(KI, 8)): (NULL, 8)}
            if n != 'empty':
                s2 = st.copy()
                im = ('heap', ('el', o), 0)
                st.mem[o] = {'*': True, add(s.lay.il, mul(KI, 8)): (('p', im, 0), 8)}
                st.objs[im] = ('heap', None, 'live', ('image', where)); st.mem[im] = {'*': True}
                s2.mem[o] = {'*': True, add(s.lay.il, mul(KI, 8)): (NULL, 8)}
                return [(st, ('p', o, 0)), (s2, ('p', o, 0))]
            return [(st, ('p', o, 0))]
        if kind == 'olist':
            a = ('heap', ('arr', o, 'r'), 0); b = ('heap', ('arr', o, 'p'), 0)
            for x in (a, b): st.objs[x] = ('heap', None, 'live', ('array', where))
            if n is None: n = I.fresh(st, ('count',) + o[1:], 0, 1 << 20)
            out = []
            r = le(st, add(KO, 1), n) if is_num(n) else None
            states = [(st, r)] if r is not None else []
            if r is None:
                s2 = st.copy()
                if assume_le(st, add(KO, 1), n): states.append((st, True))
                if assume_le(s2, n, KO): states.append((s2, False))
            for t, present in states:
                t.mem[o] = {s.lay.ol[0]: (n, 4), s.lay.ol[1]: (('p', a, 0), 8), s.lay.ol[2]: (('p', b, 0), 8)}
                t.mem[a] = {'*': True}; t.mem[b] = {'*': True}
                if present:
                    ra = ('heap', ('el', o, 'r'), 0); pa = ('heap', ('el', o, 'p'), 0)
                    for x, k in ((ra, 'region'), (pa, 'props')):
                        t.objs[x] = ('heap', None, 'live', (k, where)); t.mem[x] = {'*': True}
                    t.mem[a][mul(KO, 8)] = (('p', ra, 0), 8); t.mem[b][mul(KO, 8)] = (('p', pa, 0), 8)
                out.append((t, ('p', o, 0)))
            return out
        return [(st, ('p', o, 0))]
    def free(s, I, st, fr, ins, p, what):
        """release a native object; False when the path ends"""
        if not is_ptr(p) or p == NULL: return True
        o = p[1]
        r = st.objs.get(o)
        if r is None or r[0] != 'heap': return True
        if r[2] == 'freed':
            s.at('B03', False, I, st, fr, ins, '%s is released a second time' % what); return False
        s.at('B03', True, I, st, fr, ins, '%s is released' % what)
        st.objs[o] = (r[0], r[1], 'freed', r[3])
        st.mem.pop(o, None)
        return True
    def use(s, I, st, fr, ins, name, args):
        """arguments of a native call; False when the path ends"""
        for i, a in enumerate(args):
            if a == UNDEF: 
                s.on_undef(I, st, fr, ins, 'argument'); return False
            if is_ptr(a) and I.obj_status(st, a[1]) == 'freed' and name not in RELEASE:
                s.at('B03', False, I, st, fr, ins, 'a native object that was already released is handed to %s' % name); return False
            nul = a == NULL or (a == 0 and ins.d.get('pt', [None] * 99)[i:i + 1] == ['ptr'])
            if nul and not (name in RELEASE):
                t = tolerates(s.nprog, name, i)
                if s.b4: s.at('B04', t, I, st, fr, ins, 'a null object is handed to %s (argument %d)' % (name, i + 1) + ('' if t is not False else ', which uses it'))
                if t is False: return False
        return True
    def on_call(s, I, st, fr, ins, name, args):
        if name is None: return None
        f = s.prog.funcs.get(name)
        if name.startswith('trax_') and (f is None or f.decl): return s.native_call(I, st, fr, ins, name, args)
        if f is None: return None
        d = f.dem
        if 'basic_string<char' in d.split('(')[0] and d.split('(')[0].rsplit('::', 1)[-1] in ('c_str', 'data') and args and is_ptr(args[0]):
            o = ('ext', ('cstr', args[0]))
            if o not in st.objs: st.objs[o] = ('ext', None, 'ext', 'text')
            return [(st, ('p', o, 0))]
        if '__normal_iterator<trax::' in d and f.src in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-=') and '::__normal_iterator<' in d.split('(')[0] and args: return s.iterator(I, st, fr, ins, f, args)
        if '__gnu_cxx::' in d.split('(')[0]: return None
        if 'std::vector<trax::' in d.split('(')[0] or (f.src.startswith('swap') and '(std::vector<trax::' in d): return s.vector(I, st, fr, ins, f, args)
        if f.cls in CLASSES + ('Wrapper', 'Handle'):
            a = args[1] if f.args and f.args[0][2] else args[0] if args else None
            if is_ptr(a) and is_scratch(a[1]) and not s.const(f):
                if f.src.startswith('swap') and len(args) > 1: raise Stop('swap with an element at an arbitrary position')
                return [(st, args[0] if f.src == 'operator=' else UNDEF)]
        return None
    def const(s, f): return f.dem.rstrip().endswith(' const') or f.src == 'claims'
    def on_unknown_call(s, I, st, fr, ins, name, args):
        # a wrapper handed to code that is not analysed
        if name and (name.startswith('__') or name.startswith('_ZSt')): return None
        for a in args:
            if is_ptr(a) and (a[1] in st.mem) and a[1][0] != 'G' and any(wo == a[1] for wo, off, c in s.wrappers(st)):
                raise Stop('a wrapper is handed to %s, which is not modelled' % (name or 'an unknown function'))
        return None
    def operands(s, st, fr, ctype):
        '''the wrappers of a native type the calling function was given: (parameter name, its native object)'''
        out = []
        for i, a in enumerate(fr.f.args):
            t = fr.f.vartypes.get(i, ''); b = t.rstrip('&*')
            if a[2] or b not in CNAME or CNAME[b] != ctype or t.endswith('**'): continue
            v = st.regs.get(i); b = 'Client' if b == 'Handle' else b
            m = st.mem.get(v[1]) if is_ptr(v) else None
            x = m.get(add(v[2], s.lay.cls[b][0])) if m else None
            out.append((fr.f.vars.get(i, a[0]), x[0] if x else None))
        return out
    def passes(s, I, st, fr, ins, name, args):
        '''B06: what the caller gave reaches the native function in its place'''
        g = s.nprog.funcs.get(name)
        if g is None or g.decl or len(g.args) != len(args) or name in RELEASE: return
        given = [(fr.f.vars.get(i, a[0]), st.regs.get(i), fr.f.vartypes.get(i, '')) for i, a in enumerate(fr.f.args) if not a[2]]
        types = {}
        for i in range(len(args)): types.setdefault(g.vartypes.get(i, ''), []).append(i)
        for t, at in types.items():
            if t.endswith('*') and not t.endswith('**') and t[:-1] in CNAME.values():
                ops = s.operands(st, fr, t[:-1])
                if not ops: continue
                have = [args[i] for i in at]; want = [o[1] for o in ops]
                if None in want or UNDEF in want: continue
                if len(ops) == 1 and want[0] in have: ok = True
                elif len(ops) == 1 and len(at) == 1: ok = False if have[0] == NULL and is_ptr(want[0]) and want[0] != NULL and want[0][1][0] == 'heap' else None
                elif len(ops) == len(at):
                    ok = True if set(have) == set(want) else False if set(have) < set(want) else None
                else: ok = True if any(h in want for h in have) else None
                if ok is None: continue
                s.at('B06', ok, I, st, fr, ins, '%s is given %s' % (name, 'the %s it was called with' % ' and '.join(o[0] for o in ops) if ok else 'something else than the %s of the caller' % ' and '.join(o[0] for o in ops)))
            else:
                for i in at:
                    n = g.vars.get(i, g.args[i][0])
                    mine = [v for m, v, u in given if m == n and kindof(u) == kindof(t)]
                    if len(mine) != 1 or mine[0] is None: continue
                    other = [m for m, v, u in given if m != n and kindof(u) == kindof(t) and v is not None and v == args[i]]
                    if args[i] == mine[0] or is_num(args[i]) and is_num(mine[0]) and eq(st, args[i], mine[0]) is True: ok = True
                    elif kindof(t) == 'text' and is_ptr(args[i]) and args[i][1] == ('ext', ('cstr', mine[0])): ok = True
                    elif kindof(t) == 'text' and is_ptr(args[i]) and any(args[i][1] == ('ext', ('cstr', v)) for m, v, u in given if m != n): ok = False; other = [m for m, v, u in given if args[i][1] == ('ext', ('cstr', v))]
                    elif other: ok = False
                    elif kindof(t) == 'number' and is_int(args[i]): ok = False if eq(st, args[i], mine[0]) is None else None
                    else: ok = None
                    if ok is None: continue
                    s.at('B06', ok, I, st, fr, ins, '%s is given %s as %s' % (name, n if ok else other[0] if other else 'a constant', n))
    def native_call(s, I, st, fr, ins, name, args):
        s.passes(I, st, fr, ins, name, args)
        if not s.use(I, st, fr, ins, name, args): return []
        if name in MUTATE and len(args) > MUTATE[name]:
            a = args[MUTATE[name]]
            if name == 'trax_region_set_polygon_point' and st.mon.get('nopoly') == a: return []
            if is_ptr(a): s.shared(I, st, fr, ins, a[1], '%s changes the object' % name)
        if name in WAITS:
            S = [st]
            for i, kind in enumerate(WAITS[name]):
                nx = []
                for t in S:
                    t2 = t.copy()
                    if I.store(t2, fr, ins, args[1 + i], NULL, 8): nx.append(t2)
                    o = I.newobj(t, 'heap', ('nat', kind, i) + libc.site(fr, ins), None)
                    for t3, p in s.fill(I, t, o, kind, fr.f.where(ins)):
                        if I.store(t3, fr, ins, args[1 + i], p, 8): nx.append(t3)
                S = nx
            out = []
            for t in S:
                v = I.fresh(t, (fr.uid, ins.id, 'r')); t.mon = dict(t.mon); t.mon['ret'] = v; out.append((t, v))
            return out
        if name in CREATE:
            mode = CREATE[name]
            kind = 'string' if name in STRINGS else 'olist' if 'object_list' in name else 'ilist' if 'image_list' in name else 'handle' if 'setup' in name else \
                   'region' if 'region' in name else 'image' if 'image' in name else 'meta' if 'metadata' in name else 'props'
            if mode == 2:
                if args[0] == NULL: return [(st, NULL)]
                mode = 0
            out = []
            if mode == 1:
                s2 = st.copy()
                if name == 'trax_region_convert': s2.mon = dict(s2.mon); s2.mon['nopoly'] = args[0]
                out.append((s2, NULL))
            n = I.num(st, args[0], (fr.uid, ins.id, 'n')) if name == 'trax_object_list_create' else 'empty' if kind == 'ilist' else None
            return out + s.native(I, st, fr, ins, kind, n)
        if name in RELEASE:
            p = I.load(st, fr, ins, args[0], 'ptr', 8)
            if p is None: return []
            if p == NULL:
                t = tolerates(s.nprog, name, 0)
                return [(st, None)]
            if is_ptr(p):
                k = (st.objs.get(p[1]) or (0, 0, 0, ''))[3]
                if k.__class__ is tuple and k[0] == 'olist' and st.objs[p[1]][2] != 'freed' and name == 'trax_object_list_release':
                    m = st.mem.get(p[1]) or {}
                    for fo in s.lay.ol[1:]:
                        arr = m.get(fo)
                        if arr and is_ptr(arr[0]):
                            e = (st.mem.get(arr[0][1]) or {}).get(mul(KO, 8))
                            if e and not s.free(I, st, fr, ins, e[0], 'an element of the object list'): return []
                            if not s.free(I, st, fr, ins, arr[0], 'the array of the object list'): return []
                if not s.free(I, st, fr, ins, p, 'the native object'): return []
            if not I.store(st, fr, ins, args[0], NULL, 8): return []
            return [(st, None)]
        if name in ('trax_object_list_get', 'trax_object_list_properties'):
            off = s.lay.ol[1 if name.endswith('get') else 2]
            return s.slot(I, st, fr, ins, args[0], off, args[1])
        if name == 'trax_object_list_count':
            if is_ptr(args[0]): 
                v = I.load(st, fr, ins, ('p', args[0][1], add(args[0][2], s.lay.ol[0])), 'i32', 4)
                return [(st, v)] if v is not None else []
        if name == 'trax_image_list_clear' and is_ptr(args[0]):
            e = (st.mem.get(args[0][1]) or {}).get(add(s.lay.il, mul(KI, 8)))
            if e:
                if not s.free(I, st, fr, ins, e[0], 'an element of the image list'): return []
                m = dict(st.mem[args[0][1]]); m[add(s.lay.il, mul(KI, 8))] = (NULL, 8); st.mem[args[0][1]] = m
            return [(st, None)]
        if name == 'trax_object_list_set':
            out = []
            for t, arr, ix in s.slots(I, st, fr, ins, args[0], s.lay.ol[1], args[1]):
                if ix == 'K':
                    e = (t.mem.get(arr) or {}).get(mul(KO, 8))
                    if e and not s.free(I, t, fr, ins, e[0], 'the replaced region'): continue
                    if args[2] == NULL: p = NULL
                    else:
                        o = I.newobj(t, 'heap', ('nat', 'setreg') + libc.site(fr, ins), None)
                        s.fill(I, t, o, 'region', fr.f.where(ins)); p = ('p', o, 0)
                    if arr is not None:
                        m = dict(t.mem.get(arr) or {}); m[mul(KO, 8)] = (p, 8); t.mem[arr] = m
                out.append((t, None))
            return out
        if name == 'trax_properties_enumerate' and len(args) > 2 and args[1].__class__ is tuple and args[1][0] == 'f':
            g = s.prog.funcs.get(args[1][1])
            if g is not None and not g.decl:
                s2 = st.copy()
                outs = I.call_function(g, s2, [('p', ('ext', 'key'), 0), ('p', ('ext', 'value'), 0), args[2]], fr.f.where(ins), len(I.callstack), fr.ctx + ((fr.f.name, ins.id),))
                return [(st, None)] + [(t, None) for t, v, k in outs if k == 'ret']
        v = None
        if ins.t: v = I.typed(st, I.fresh(st, (fr.ctx, ins.id, 'ret', name)), ins.t, ins.sz)
        if name in EXCHANGE: st.mon = dict(st.mon); st.mon['ret'] = v
        if s.entry.endswith('::metadata()') and name in ('trax_properties_append', 'trax_properties_set', 'trax_properties_enumerate', 'trax_properties_copy'): st.mon = dict(st.mon); st.mon['moved'] = True
        return [(st, v)]
    def slots(s, I, st, fr, ins, lp, off, ix):
        """states split by whether the index is the element that is followed: (state, array object, 'K' or 'other')"""
        arr = None
        if is_ptr(lp):
            m = st.mem.get(lp[1]) or {}
            c = m.get(add(lp[2], off))
            if c and is_ptr(c[0]): arr = c[0][1]
        ix = I.num(st, ix, (fr.uid, ins.id, 'ix'))
        out = []
        for t, w in split(st, ix, KO): out.append((t, arr, 'K' if w == 0 else 'other'))
        return out
    def slot(s, I, st, fr, ins, lp, off, ix):
        out = []
        for t, arr, w in s.slots(I, st, fr, ins, lp, off, ix):
            e = (t.mem.get(arr) or {}).get(mul(KO, 8)) if arr is not None and w == 'K' else None
            if e: out.append((t, e[0]))
            else: out.append((t, I.typed(t, I.fresh(t, (fr.uid, ins.id, 'elem', w)), 'ptr', 8)))
        return out
    # --- std::vector of wrappers
    def vec_of(s, st, a):
        """the content object of the vector at address a"""
        if not is_ptr(a): raise Stop('vector at an unknown address')
        m = st.mem.get(a[1]) or {}
        x = m.get(a[2])
        if x is None or not is_ptr(x[0]) or x[0][1][0] != 'vec': raise Stop('vector in an unknown state')
        return x[0][1]
    def vec_new(s, I, st, a, cls, n):
        k = 0
        while ('vec', cls, k) in st.mem: k += 1
        v = ('vec', cls, k)
        st.mem[v] = {0: (n, 8)}
        I.setmem(st, a[1], a[2], ('p', v, 0), 8)
        return v
    def member(s, I, st, fr, ins, dem, args):
        f = s.special.get(dem)
        if f is None: raise Stop('%s is not defined' % dem)
        outs = I.call_function(f, st, args, fr.f.where(ins), len(I.callstack), fr.ctx + ((fr.f.name, ins.id, dem),))
        return [t for t, v, k in outs if k == 'ret']
    def vec_clear(s, I, st, fr, ins, v, cls):
        if 16 not in st.mem[v]:
            st.mem[v] = {0: (0, 8)}; return [st]
        out = s.member(I, st, fr, ins, 'trax::%s::~%s()' % (cls, cls), [('p', v, 16)])
        for t in out: t.mem[v] = {0: (0, 8)}
        return out
    def vec_fill(s, I, st, fr, ins, v, cls, src):
        """v (empty) becomes a copy of src"""
        n = st.mem[src][0]
        st.mem[v] = {0: n}
        if 16 not in st.mem[src]: return [st]
        return s.member(I, st, fr, ins, 'trax::%s::%s(trax::%s const&)' % (cls, cls, cls), [('p', v, 16), ('p', src, 16)])
    def vector(s, I, st, fr, ins, f, args):
        d = f.dem
        cls = re.search(r'std::vector<trax::(\w+)', d).group(1)
        K = KI if cls == 'Image' else KO
        a = args[0]
        if f.src.startswith('swap'):
            x, y = s.vec_of(st, args[0]), s.vec_of(st, args[1])
            I.setmem(st, args[0][1], args[0][2], ('p', y, 0), 8); I.setmem(st, args[1][1], args[1][2], ('p', x, 0), 8)
            return [(st, None)]
        m = re.search(r'::(~?\w+|operator=|operator\[\])\((.*)\)( const)?$', d)
        op, par = (m.group(1), m.group(2)) if m else (f.src, '?')
        if op == 'vector':
            if par == '':
                s.vec_new(I, st, a, cls, 0); return [(st, None)]
            if par.startswith('std::vector') and par.endswith('const&'):
                src = s.vec_of(st, args[1]); v = s.vec_new(I, st, a, cls, 0)
                return [(t, None) for t in s.vec_fill(I, st, fr, ins, v, cls, src)]
            if par.startswith('std::vector') and par.endswith('&&'):
                src = s.vec_of(st, args[1]); v = s.vec_new(I, st, args[1], cls, 0)
                I.setmem(st, a[1], a[2], ('p', src, 0), 8); return [(st, None)]
            if par.startswith('unsigned long'):
                v = s.vec_new(I, st, a, cls, 0)
                return s.vec_resize(I, st, fr, ins, v, cls, K, args[1])
            raise Stop('vector constructor %s is not modelled' % par)
        v = s.vec_of(st, a)
        if op == '~vector':
            out = s.vec_clear(I, st, fr, ins, v, cls)
            for t in out:
                del t.mem[v]; mm = dict(t.mem.get(a[1]) or {}); mm.pop(a[2], None); t.mem[a[1]] = mm
            return [(t, None) for t in out]
        if op == 'operator=' and par.endswith('const&'):
            src = s.vec_of(st, args[1])
            if src == v: return [(st, a)]
            out = []
            for t in s.vec_clear(I, st, fr, ins, v, cls): out += [(u, a) for u in s.vec_fill(I, t, fr, ins, v, cls, src)]
            return out
        if op == 'operator=' and par.endswith('&&'):
            src = s.vec_of(st, args[1])
            if src == v: return [(st, a)]
            out = []
            for t in s.vec_clear(I, st, fr, ins, v, cls):
                I.setmem(t, args[0][1], args[0][2], ('p', src, 0), 8); I.setmem(t, args[1][1], args[1][2], ('p', v, 0), 8); out.append((t, a))
            return out
        if op == 'swap':
            y = s.vec_of(st, args[1])
            I.setmem(st, args[0][1], args[0][2], ('p', y, 0), 8); I.setmem(st, args[1][1], args[1][2], ('p', v, 0), 8)
            return [(st, None)]
        if op == 'clear': return [(t, None) for t in s.vec_clear(I, st, fr, ins, v, cls)]
        if op == 'size': return [(st, st.mem[v][0][0])]
        if op == 'empty':
            r = eq(st, st.mem[v][0][0], 0)
            return [(st, 1 if r is True else 0 if r is False else I.fresh(st, (fr.uid, ins.id, 'e'), 0, 1))]
        if op in ('reserve', 'shrink_to_fit'): return [(st, None)]
        if op in ('resize', 'assign') and par.startswith('unsigned long') and ',' not in par: return s.vec_resize(I, st, fr, ins, v, cls, K, args[1])
        if op in ('operator[]', 'at', 'front'):
            ix = 0 if op == 'front' else I.num(st, args[1], (fr.uid, ins.id, 'ix'))
            out = []
            for t, w in split(st, ix, K):
                if w == 0:
                    if 16 in t.mem[v]: out.append((t, ('p', v, 16)))
                    # otherwise the index is outside the list: the caller's obligation
                else: out.append((t, s.scratch(I, t, cls, (fr.f.name, ins.id))))
            return out
        if op in ('begin', 'cbegin', 'end', 'cend'):
            n = 0 if 'begin' in op else st.mem[v][0][0]
            return [(st, ('p', v, add(ITER, n)))]
        if op in ('push_back', 'emplace_back'):
            n = st.mem[v][0][0]
            arg = args[1] if len(args) > 1 else None
            if arg is None: raise Stop('vector::%s without argument' % op)
            out = []
            for t, w in split(st, n, K):
                t.mem[v] = dict(t.mem[v]); t.mem[v][0] = (add(n, 1), 8)
                if w == 0:
                    dem = 'trax::%s::%s(trax::%s const&)' % (cls, cls, cls) if '&&' not in par else 'trax::%s::%s(trax::%s&&)' % (cls, cls, cls)
                    out += [(u, UNDEF) for u in s.member(I, t, fr, ins, dem, [('p', v, 16), arg])]
                else: out.append((t, UNDEF))
            return out
        raise Stop('vector::%s is not modelled' % op)
    def iterator(s, I, st, fr, ins, f, args):
        """element an iterator of a wrapper vector stands at"""
        cls = re.search(r'__normal_iterator<trax::(\w+)', f.dem).group(1)
        p = I.load(st, fr, ins, args[0], 'ptr', 8)
        if p is None: return []
        if not (is_ptr(p) and p[1][0] == 'vec'): raise Stop('iterator that is not followed %r' % (p,))
        if f.src != 'operator*' and f.src != 'operator->':
            if '()' not in f.dem: raise Stop('iterator operation %s' % f.dem)
            return [(st, args[0])] if I.store(st, fr, ins, args[0], ('p', p[1], add(p[2], 1 if f.src == 'operator++' else -1)), 8) else []
        q = sub(p[2], ITER)   # positions are counted in elements
        v = p[1]; out = []
        for t, w in split(st, q, KI if cls == 'Image' else KO):
            if w == 0:
                if 16 in t.mem[v]: out.append((t, ('p', v, 16)))
            else: out.append((t, s.scratch(I, t, cls, (fr.f.name, ins.id))))
        return out
    def vec_resize(s, I, st, fr, ins, v, cls, K, n):
        n = I.num(st, n, (fr.uid, ins.id, 'n'))
        have = 16 in st.mem[v]
        r = le(st, add(K, 1), n)
        S = []
        if r is None:
            s2 = st.copy()
            if assume_le(st, add(K, 1), n): S.append((st, True))
            if assume_le(s2, n, K): S.append((s2, False))
        else: S = [(st, r)]
        out = []
        for t, need in S:
            if need and not have:
                t.mem[v] = {0: (n, 8)}
                out += [(u, None) for u in s.member(I, t, fr, ins, 'trax::%s::%s()' % (cls, cls), [('p', v, 16)])]
            elif have and not need:
                for u in s.vec_clear(I, t, fr, ins, v, cls): u.mem[v] = {0: (n, 8)}; out.append((u, None))
            else:
                t.mem[v] = dict(t.mem[v]); t.mem[v][0] = (n, 8); out.append((t, None))
        return out
    def scratch(s, I, st, cls, site):
        o = ('ext', ('scratch', cls, site)); c = ('ext', ('scratchcount', cls, site))
        st.mem[o] = {0: (('p', ('G', s.lay.cls[cls][3]), 16), 8), s.lay.pn: (('p', c, 0), 8), s.lay.cls[cls][0]: (('p', ('ext', ('scratchnative', cls, site)), 0), 8)}
        st.mem[c] = {0: (1 << 30, 8)}
        return ('p', o, 0)

def s_kind(s, o): return ()
def is_scratch(o): return o[0] == 'ext' and isinstance(o[1], tuple) and o[1][0] == 'scratch'

def split(st, ix, K):
    """states in which the index equals (0), is below (-1) or above (1) the followed one"""
    r = eq(st, ix, K)
    if r is True: return [(st, 0)]
    out = []
    if r is None:
        t = st.copy()
        if assume_eq(t, ix, K): out.append((t, 0))
    t = st.copy()
    if le(t, K, ix) is not True and assume_le(t, add(ix, 1), K): out.append((t, -1))
    if le(st, ix, K) is not True and assume_le(st, add(K, 1), ix): out.append((st, 1))
    return out

# ------------------------------------------------------------------------------------------------ entry states
class Builder(object):
    def __init__(s, c, I):
        s.c = c; s.I = I; s.st = absint.State(); s.n = 0; s.hidden = {}; s.roots = set(); s.refs = {}
        refine(s.st, single_atom(KO), 0, 1 << 20); refine(s.st, single_atom(KI), 0, 2)
        s.st.mem[('ext', 'followed')] = {0: (KO, 8), 8: (KI, 8)}   # keeps the relation of loop counters to the followed index
    def name(s, k): s.n += 1; return ('heap', ('given', k, s.n), 0)
    def nat(s, kind):
        o = s.name(kind); s.st.objs[o] = ('heap', None, 'live', (kind, 'the caller')); s.st.mem[o] = {'*': True}
        if kind == 'meta':
            for m in ('format_region', 'format_image', 'channels'):
                v = T.A(('sym', m, s.n)); refine(s.st, single_atom(v), 0, 255); s.st.mem[o][s.c.prog.field('trax_metadata', m)[0]] = (v, 4)
        return o
    def counter(s, shared, refs=1):
        o = s.name('counter'); s.st.objs[o] = ('heap', 8, 'live', ('counter', 'the caller'))
        h = 0
        if shared:
            h = T.A(('sym', 'others%d' % s.n, 0)); refine(s.st, single_atom(h), 1, 1 << 40); s.roots.add(o)
        s.st.mem[o] = {0: (add(h, refs), 8)}; s.hidden[o] = h
        return o
    def wrap(s, o, off, cls, mode, share=None, elem='E'):
        """put a wrapper in the given state at (o, off); share = (counter, native) to join"""
        L = s.c.lay; nf, vecs, size, vt = L.cls[cls]
        m = dict(s.st.mem.get(o) or {})
        m[off] = (('p', ('G', vt), 16), 8)
        if mode == 'E': m[off + L.pn] = (NULL, 8); m[off + nf] = (NULL, 8); c = n = None
        elif share: 
            c, n = share; v = s.st.mem[c][0]; s.st.mem[c] = {0: (add(v[0], 1), 8)}
            m[off + L.pn] = (('p', c, 0), 8); m[off + nf] = (('p', n, 0), 8)
        else:
            c = s.counter(mode == 'S')
            kind = {'Image': 'image', 'Region': 'region', 'Properties': 'props', 'Metadata': 'meta', 'ImageList': 'ilist', 'ObjectList': 'olist'}.get(cls, 'handle')
            n = s.nat(kind)
            if mode == 'S': s.roots.add(n)
            m[off + L.pn] = (('p', c, 0), 8); m[off + nf] = (('p', n, 0), 8)
        s.st.mem[o] = m
        made = (c, n)
        els = {}
        for vo, ec in vecs:
            k = 0
            while ('vec', ec, k) in s.st.mem: k += 1
            v = ('vec', ec, k)
            s.st.mem[v] = {0: (0, 8)}
            s.st.mem[o] = dict(s.st.mem[o]); s.st.mem[o][off + vo] = (('p', v, 0), 8)
            if mode == 'E': continue
            if ec == 'Image':
                s.st.mem[v][0] = (3, 8); slot = (n, add(L.il, mul(KI, 8)))
            else:
                fo = L.ol[1 if ec == 'Region' else 2]
                if not share:
                    arr = s.name('array'); s.st.objs[arr] = ('heap', None, 'live', ('array', 'the caller')); s.st.mem[arr] = {'*': True}
                    nn = T.A(('sym', 'count%d' % s.n, 0)) if L.ol[0] not in s.st.mem[n] else s.st.mem[n][L.ol[0]][0]
                    if L.ol[0] not in s.st.mem[n]:
                        refine(s.st, single_atom(nn), 1, 1 << 20); assume_le(s.st, add(KO, 1), nn)
                        s.st.mem[n] = {L.ol[0]: (nn, 4)}
                    s.st.mem[n][fo] = (('p', arr, 0), 8)
                    if mode == 'S': s.roots.add(arr)
                arr = s.st.mem[n][fo][0][1]
                s.st.mem[v][0] = (s.st.mem[n][L.ol[0]][0], 8); slot = (arr, mul(KO, 8))
            em = elem
            if ec == 'Properties' and em == 'E': em = 'U'
            if mode == 'S' and em == 'U': em = 'S'
            if share:
                # the other wrapper's element is the same object
                e = s.els[share[0]].get(ec)
                if e: s.wrap(v, 16, ec, 'X', share=e)
                else: s.wrap(v, 16, ec, 'E')
                continue
            r = s.wrap(v, 16, ec, em)
            els[ec] = r if r[0] else None
            s.st.mem[slot[0]] = dict(s.st.mem[slot[0]])
            s.st.mem[slot[0]][slot[1]] = ((('p', r[1], 0) if r[1] else NULL), 8)
        s.els = getattr(s, 'els', {})
        if c and not share: s.els[c] = els
        return made

def statesof(cls, role):
    if cls in ('ImageList', 'ObjectList'):
        L = [('U', 'E'), ('U', 'U'), ('U', 'S'), ('S', 'E'), ('S', 'S')]
    else: L = [('U', 'E'), ('S', 'E')]
    return L + [('E', 'E')]

def entries(prog):
    """(function, [(arg index, class, by reference?)], this index or None, kind)"""
    out = []
    for f in sorted(prog.funcs.values(), key=lambda f: f.name):
        if f.decl or (f.file or '').startswith('/usr/') or '/include/c++/' in (f.file or ''): continue
        member = f.cls in CLASSES or f.cls == 'Handle' and f.src != 'Handle' and not f.src.startswith('~')
        if member:
            if f.d.get('acc') != 'public': continue
        elif not (f.src.startswith('operator') and f.dem.startswith('trax::operator')): continue
        if 'D0Ev' in f.name or 'C1' in f.name and f.name.replace('C1', 'C2') in prog.funcs: continue
        ps = []; this = None
        for i, a in enumerate(f.args):
            t = f.vartypes.get(i, ''); n = f.vars.get(i, a[0])
            if a[2]: ps.append((i, None, 'sret')); continue
            if a[0] == 'this': this = i; ps.append((i, 'Client' if f.cls == 'Handle' else f.cls, 'this')); continue
            b = t.rstrip('&*')
            if b in CLASSES and not t.endswith('*'): ps.append((i, b, 'ref' if t.endswith('&') else 'val'))
            else: ps.append((i, None, a[1]))
        kind = 'member'
        if f.src == f.cls: kind = 'ctor'
        elif f.src.startswith('~'): kind = 'dtor'
        out.append((f.name, ps, this, kind))
    return out

def cases(prog, e):
    """entry states: list of {arg: (mode, elem, alias)}"""
    name, ps, this, kind = e
    f = prog.funcs[name]
    W = [(i, c, r) for i, c, r in ps if c and not (r == 'this' and kind == 'ctor')]
    per = []
    for i, c, r in W:
        S = statesof(c, r)
        if c == 'Metadata' and not (kind in ('ctor', 'dtor') and f.cls == 'Metadata' or f.src == 'operator='): S = [x for x in S if x[0] != 'E']
        if r == 'this' and c == 'ImageList' and not (kind in ('ctor', 'dtor') or f.src == 'operator='): S = [x for x in S if x[0] != 'E']
        per.append([(i, c, r, x) for x in S])
    out = [{}]
    for p in per: out = [dict(o, **{str(x[0]): x}) for o in out for x in p]
    base = list(out)
    # aliases
    for a in range(len(W)):
        for b in range(a + 1, len(W)):
            (i, ci, ri), (j, cj, rj) = W[a], W[b]
            if ci == cj:
                for o in base:
                    if rj == 'ref' and o[str(i)][3] == o[str(j)][3]: out.append(dict(o, alias=('same', i, j)))
                    if o[str(i)][3][0] != 'E' and o[str(i)][3] == o[str(j)][3]: out.append(dict(o, alias=('count', i, j)))
            elif ci == 'ObjectList' and cj in ('Region', 'Properties') or ci == 'ImageList' and cj == 'Image':
                for o in base:
                    if o[str(i)][3][0] != 'E' and o[str(i)][3][1] == 'S' and o[str(j)][3][0] == 'S': out.append(dict(o, alias=('elem', i, j)))
    return out

HANDLEBASE = HANDLES + ('Handle',)
def run_case(prog, lay, nprog, e, case):
    name, ps, this, kind = e
    f = prog.funcs[name]
    c = WClient(prog, lay, nprog, f.dem)
    I = Interp(prog, c)
    B = Builder(c, I)
    st = B.st
    args = [None] * len(f.args)
    al = case.get('alias')
    live = set()
    made = {}
    for i, cls, r in ps:
        if r == 'sret' or (r == 'this' and kind == 'ctor'):
            o = ('heap', ('raw', i), 0); st.objs[o] = ('heap', None, 'escaped', ('raw', 'the caller')); args[i] = ('p', o, 0); B.roots.add(o); continue
        if cls:
            if al and al[0] == 'same' and al[2] == i: args[i] = args[al[1]]; continue
            o = ('arg', i); st.mem[o] = {}
            _, _, _, (mode, elem) = case[str(i)]
            if al and al[0] == 'count' and al[2] == i: made[i] = B.wrap(o, 0, cls, mode, share=made[al[1]], elem=elem)
            elif al and al[0] == 'elem' and al[2] == i: 
                sh = B.els[made[al[1]][0]].get(cls)
                made[i] = B.wrap(o, 0, cls, mode, share=sh) if sh else B.wrap(o, 0, cls, mode, elem=elem)
            else: made[i] = B.wrap(o, 0, cls, mode, elem=elem)
            args[i] = ('p', o, 0); continue
        args[i] = ('p', ('arg', i), 0) if f.args[i][1] == 'ptr' else I.fresh(st, ('arg', i))
    st.roots = (frozenset(B.roots),)
    c.b4 = f.cls in HANDLEBASE
    desc = ', '.join('%s: %s%s' % (f.args[i][0], {'E': 'empty', 'U': 'sole owner', 'S': 'shared'}[case[str(i)][3][0]], ' with %s elements' % {'E': 'empty', 'U': 'unshared', 'S': 'shared'}[case[str(i)][3][1]] if cls in ('ImageList', 'ObjectList') and case[str(i)][3][0] != 'E' else '') for i, cls, r in ps if str(i) in case)
    if al: desc += '; %s and %s %s' % (f.args[al[1]][0], f.args[al[2]][0], {'same': 'are the same object', 'count': 'share one object', 'elem': 'share an element'}[al[0]])
    problem = None
    n = 0
    try:
        outs = I.call_function(f, st, args, 'API', 0, ())
        for t, v, k in outs:
            if k != 'ret': continue
            n += 1
            finish(c, I, t, v, f, e, case, args, B)
        if hasattr(c, 'moved'):
            c.ob('B06', c.moved, '%s:%s' % (ir.short(f.file), f.line), f.dem, 'the description of a session keeps the further properties' if c.moved else 'the description of a session is made without its further (custom) properties', outs[-1][0], I)
    except Budget: problem = 'step budget exhausted'
    except Stop as x: problem = str(x)
    return dict(entry=f.dem, short='%s::%s' % (f.cls, f.src) if f.cls else f.src, case=desc, viol=[(k, w) for k, w in c.viol.items()], obl=c.obl, unk=sorted(c.unk), problem=problem, outs=n, steps=I.nsteps, inc=list(I.incomplete), where='%s:%s' % (ir.short(f.file), f.line))

def finish(c, I, st, v, f, e, case, args, B):
    name, ps, this, kind = e
    lay = c.lay
    where = '%s:%s' % (ir.short(f.file), f.line)
    def ob(prop, ok, what): c.ob(prop, ok, where, f.dem, what, st, I)
    refs = {}; owner = {}
    dead = args[this][1] if kind == 'dtor' and this is not None else None
    nat = {}
    for o, off, cls in c.wrappers(st):
        if is_scratch(o) or o == dead: continue
        m = st.mem[o]
        p = m.get(off + lay.pn); n = m.get(off + lay.cls[cls][0])
        what = 'the %s' % cls
        p = p[0] if p else UNDEF; n = n[0] if n else UNDEF
        if p == UNDEF: ob('B03', False, 'a %s is left with a counter that was never set' % cls); continue
        if p == NULL:
            ob('B03', True if n == NULL else False, 'a %s without counter refers to no native object' % cls if n == NULL else 'a %s without a share in the counter still refers to a native object' % cls)
            continue
        if not is_ptr(p): ob('B03', None, 'counter of a %s' % cls); continue
        refs[p[1]] = refs.get(p[1], 0) + 1
        if p[1][0] == 'ext': continue
        if n == UNDEF or n == NULL: ob('B03', False, 'a %s shares a counter but refers to no native object' % cls); continue
        if is_ptr(n):
            s = I.obj_status(st, n[1])
            ob('B03', False if s == 'freed' else True, 'a %s refers to a released native object' % cls)
            if n[1][0] == 'heap':
                if nat.setdefault(p[1], n[1]) != n[1]: ob('B03', False, 'two wrappers share a counter but not the native object')
                q = owner.setdefault(n[1], p[1])
                if q != p[1]: ob('B03', False, 'one native object has two counters, so it would be released twice')
                else: ob('B03', True, 'one counter')
        # the wrapped list shows the elements its vector owns
        if cls in ('ImageList', 'ObjectList') and is_ptr(n) and I.obj_status(st, n[1]) != 'freed':
            for vo, ec in lay.cls[cls][1]:
                vc = m.get(off + vo)
                if not vc or not is_ptr(vc[0]): ob('B03', None, 'elements of the %s' % cls); continue
                vm = st.mem.get(vc[0][1]) or {}
                if ec == 'Image': cell = (st.mem.get(n[1]) or {}).get(add(lay.il, mul(KI, 8)))
                else:
                    arr = (st.mem.get(n[1]) or {}).get(lay.ol[1 if ec == 'Region' else 2])
                    cell = (st.mem.get(arr[0][1]) or {}).get(mul(KO, 8)) if arr and is_ptr(arr[0]) else None
                ev = vm.get(16 + lay.cls[ec][0])
                if cell is None and ev is None: continue
                if ev is None:
                    # index K is outside the list or the vector is short
                    sz = vm.get(0)
                    ob('B03', False if cell is not None and cell[0] != NULL else None, 'the element wrappers of the %s do not cover its elements' % cls); continue
                if cell is None: ob('B03', None, 'element of the native list'); continue
                same = cell[0] == ev[0]
                if not same and is_ptr(cell[0]) and is_ptr(ev[0]) and cell[0] != NULL and ev[0] != NULL:
                    r = False if cell[0][1][0] == 'heap' and ev[0][1][0] == 'heap' else None
                else: r = same
                ob('B03', r, 'an element of the native %s is the one its wrapper owns' % cls if r else 'an element of the native %s is not the one its wrapper owns' % cls)
    for o, h in list(B.hidden.items()) + [(x, 0) for x in st.objs if x[0] == 'heap' and x not in B.hidden and x in refs]:
        r = st.objs.get(o)
        k = refs.get(o, 0)
        if r is None or r[2] == 'freed':
            ok = k == 0 and eq(st, h, 0)
            ob('B03', ok if ok in (True, None) else False, 'the share counter is deleted while wrappers refer to it' if not ok else 'counter deleted'); continue
        if r[2] == 'escaped' and r[3][0] != 'counter' if isinstance(r[3], tuple) else r[2] == 'escaped': continue
        cv = (st.mem.get(o) or {}).get(0)
        if cv is None or not is_num(cv[0]): ob('B03', None, 'value of the counter'); continue
        d = sub(sub(cv[0], h), k)
        ok = eq(st, d, 0)
        ob('B03', ok, 'the counter equals the number of wrappers that share the object' if ok else 'the counter differs from the number of wrappers that share the object (%s)' % ('by %s' % T.show(d)))
    # every native object a hidden wrapper still uses is alive; unreachable ones were reported by the leak detector
    for o in B.roots:
        r = st.objs.get(o)
        if r is not None and o[1][0] == 'given': ob('B03', r[2] != 'freed', 'an object other wrappers still use is released')
    # B06: what the native function answered is what the caller is told
    r = st.mon.get('ret')
    if r is not None and kind == 'member' and f.cls in HANDLEBASE and v is not None:
        t = (f.d.get('ditypes') or [['']])[0][0]
        if t == 'int' and is_num(v) and is_num(r):
            ok = True if v == r or eq(st, v, r) is True else False if is_int(v) and v != core.consts()['TRAX_ERROR'] and eq(st, v, r) is not True else None
            if ok is not None: ob('B06', ok, '%s returns the status of the native call' % f.src if ok else '%s returns %s whatever the native call answered' % (f.src, T.show(v)))
    if f.cls == 'Metadata' and this is not None and is_ptr(args[this]):
        n = (st.mem.get(args[this][1]) or {}).get(lay.cls['Metadata'][0])
        F = lambda m: c.prog.field('trax_metadata', m)[0]
        if kind == 'member' and f.src in ('image_formats', 'region_formats', 'channels') and n and is_ptr(n[0]) and v is not None:
            fl = {'image_formats': 'format_image', 'region_formats': 'format_region', 'channels': 'channels'}
            cell = (st.mem.get(n[0][1]) or {})
            w = cell.get(F(fl[f.src])); others = [g for g in fl.values() if g != fl[f.src] and cell.get(F(g)) and cell[F(g)][0] == v]
            ok = True if w and w[0] == v else False if others or is_int(v) else None
            ob('B06', ok, '%s tells the field %s' % (f.src, fl[f.src]) if ok else '%s tells %s' % (f.src, others[0] if others else 'a constant'))
    if f.src == 'metadata' and kind == 'member' and f.cls in HANDLEBASE and case.get(str(this), (0, 0, 0, ('E',)))[3][0] != 'E' and f.d.get('ditypes') and f.args[0][2]:
        c.moved = getattr(c, 'moved', False) or bool(st.mon.get('moved'))
    # B04: result of an operation on an empty handle
    if c.b4 and this is not None and kind == 'member' and case.get(str(this), (0, 0, 0, ('U',)))[3][0] == 'E':
        t = (f.d.get('ditypes') or [['']])[0][0]
        if t == 'int' and f.src in ('wait', 'initialize', 'frame', 'reply'):
            r = eq(st, v, core.consts()['TRAX_ERROR']) if is_num(v) else None
            ob('B04', r, '%s on an empty %s reports an error' % (f.src, f.cls) if r else '%s on an empty %s does not report an error' % (f.src, f.cls))
        elif t == 'bool':
            r = eq(st, v, 0) if is_num(v) else None
            ob('B04', r, '%s on an empty %s is false' % (f.src, f.cls) if r else '%s on an empty %s is not false' % (f.src, f.cls))

def eq_const(st, v):
    lo, hi = absint.bounds(st, v)
    return int(lo) if lo == hi else None

_P = {}
def work(a):
    e, case = a
    try: return run_case(_P['p'], _P['l'], _P['n'], e, case)
    except build.Broken: raise
    except Exception as x:
        import traceback
        return dict(entry=_P['p'].funcs[e[0]].dem, short=e[0], case='', viol=[], obl={}, unk=[], problem='analysis stopped: ' + traceback.format_exc()[-300:], outs=0, steps=0, inc=[], where='')

def run_all():
    _P['p'] = ir.Program(build.dump('cxx')); _P['l'] = Layout(_P['p']); _P['n'] = ir.Program(build.dump('core'))
    core.consts()
    E = entries(_P['p'])
    have = set(_P['p'].funcs[e[0]].cls for e in E)
    for c in CLASSES:
        if c not in have: raise build.Broken('trax::%s has no public operation left' % c)
    J = [(e, c) for e in E for c in cases(_P['p'], e)]
    # tolerances of session calls are expensive: compute them first, in parallel workers' parent
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p: R = p.map(work, J, chunksize=8)
    return R

RULES = {'B03': 'at every exit: counter value = number of wrappers sharing it, native object alive while shared, released exactly once by the last one, every list element owned by its wrapper',
         'B04': 'no null object reaches a native function that uses it (decided by interpreting that function with a null argument), and empty handles report failure',
         'B06': 'each object, number and text the caller gave reaches the native function at the parameter of its type and name',
         'B05': 'a native object is changed only while its counter is 1'}
def run(pid, tier):
    from result import Result, Violation
    R = run_all()
    r = Result('Abstract interpretation of every public operation of the C++ wrappers from every ownership state (empty / sole owner / shared, all aliasings, one arbitrary list element); %s.' % RULES[pid])
    cs = 0; steps = 0; ents = set(); seen = set()
    for j in R:
        o = j['obl'].get(pid, [0, 0, 0]); r.obligations += sum(o); r.discharged += o[0]
        cs += 1; steps += j['steps']; ents.add(j['entry'][:120])
        for (p, w, what), (func, trace, stack) in j['viol']:
            if p != pid or (w, what) in seen: continue
            seen.add((w, what))
            r.violations.append(Violation(w, func, what, ['operation: %s' % j['entry'], 'state: %s' % j['case']] + (['via ' + ' > '.join(stack)] if stack else []) + trace, key='%s: %s' % (j['short'], what)))
        for p, w, what in j['unk']:
            if p == pid: r.inconclusive.append('%s (%s): %s at %s' % (j['entry'][:100], j['case'], what, w))
        if j['problem']: r.inconclusive.append('%s (%s): %s' % (j['entry'][:100], j['case'], j['problem']))
        for x in j['inc']: r.inconclusive.append('%s (%s): %s' % (j['entry'][:100], j['case'], x))
    r.coverage = {'operations': sorted(ents), 'entry_states': cs, 'steps': steps, 'rule': RULES[pid]}
    r.assumptions = ['native functions create, release and borrow objects as the header documents (checked on the C side by M01, M02)', 'C++ standard library calls do not throw; std::vector copies, moves and destroys its elements through their special members']
    r.samples = [{'operation': j['entry'][:120], 'state': j['case'], 'obligations': j['obl'].get(pid), 'exits': j['outs']} for j in R[:3]]
    return r

if __name__ == '__main__':
    import time, sys
    t = time.time(); R = run_all()
    print('%.1fs' % (time.time() - t), len(R), 'cases', sum(j['steps'] for j in R), 'steps')
    tot = {}
    for j in R:
        for k, v in j['obl'].items():
            o = tot.setdefault(k, [0, 0, 0])
            for i in range(3): o[i] += v[i]
    print(tot)
    seen = {}
    for j in R:
        for (p, w, what), x in j['viol']:
            if p == 'pre': continue
            k = (p, w, what); seen.setdefault(k, []).append((j['short'], j['case']))
    for k, L in sorted(seen.items()): print(k, len(L), L[0])
    pr = {}
    for j in R:
        for k in j['unk']: pr.setdefault('? ' + k[0] + ' ' + k[2], []).append((j['short'], j['case']))
        if j['problem']: pr.setdefault(j['problem'], []).append((j['short'], j['case']))
        for x in j['inc']: pr.setdefault(x, []).append((j['short'], j['case']))
        if j['outs'] == 0 and not j['problem']: pr.setdefault('no exits', []).append((j['short'], j['case']))
    for k, L in sorted(pr.items()): print('   ', k[:300], len(L), L[0])
