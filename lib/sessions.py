"""Session layer of the C library: every public session call is analysed, for every state a handle can be in,
against a peer that may send anything; what the session properties demand is checked at every message and at
every return.  S01-S07, and the session layer's part of M01/M02."""
import os, sys, time, multiprocessing
import build, ir, core, absint, libc
import terms as T
from terms import *
from core import *
from absint import band

META = ('ext', 'metadata')
LIST = ('ext', 'olist')
IMGS = ('ext', 'images')

def arg(i): return ('p', ('arg', i), 0)
def nullable(i): return ('p', ('D', T.A(('sym', 'arg%d' % i, 0))), 0)
hp = ('p', H, 0)
lp = ('p', LIST, 0)
ip = ('p', IMGS, 0)

WAITS = ('trax_client_wait', 'trax_server_wait_sot', 'trax_server_wait_mot')
REQS = ('trax_client_initialize', 'trax_client_frame', 'trax_server_reply_sot', 'trax_server_reply_mot')
OTHER = ('trax_terminate', 'trax_is_alive', 'trax_get_error', 'trax_cleanup', 'trax_set_parameter', 'trax_get_parameter')
SETUPS = ('trax_client_setup_file', 'trax_client_setup_socket', 'trax_server_setup_v', 'trax_server_setup_file_v')

def jobs(tier):
    """(function, role, alive, (version range), multi bit or None, channels)"""
    J = []
    allch = (1, 2, 3, 4, 5, 6, 7)
    chs = allch
    for alive in (True, False):
        J.append(('trax_client_wait', 'client', alive, (1, 4), None, 1))
        for f in ('trax_client_initialize', 'trax_client_frame'):
            for ver, multi in (((1, 3), 0), ((4, 4), 0), ((4, 4), 1)):
                for ch in (chs if alive else (7,)): J.append((f, 'client', alive, ver, multi, ch))
        for ver in ((1, 3), (4, 4)):
            for ch in (chs if alive else (7,)): J.append(('trax_server_wait_sot', 'server', alive, ver, None, ch))
        for ch in (chs if alive else (7,)): J.append(('trax_server_wait_mot', 'server', alive, (1, 4), None, ch))
        J.append(('trax_server_reply_sot', 'server', alive, (1, 3), 0, 1))
        J.append(('trax_server_reply_sot', 'server', alive, (4, 4), None, 1))
        for ver, multi in (((1, 3), 0), ((4, 4), 0), ((4, 4), 1)):
            J.append(('trax_server_reply_mot', 'server', alive, ver, multi, 1))
        for f in OTHER:
            for role in ('client', 'server'): J.append((f, role, alive, (1, 4), None, 1))
    J.append(('trax_cleanup', 'client', None, (1, 4), None, 1))
    for f in SETUPS: J.append((f, 'client' if 'client' in f else 'server', None, (1, 4), None, 1))
    # the long ones first
    J.sort(key=lambda j: (0 if j[0] == 'trax_server_wait_mot' and j[2] else 1 if j[2] else 2))
    return J

class Analysis(Session):
    steps = 400000
    def __init__(s, prog, job):
        Session.__init__(s, prog, job[1])
        s.job = job
    def rep(s, I, st, fr, ins, kind, what):
        w = fr.f.where(ins) if ins is not None else fr.f.where(fr.f.blocks[0][0])
        r = Report(kind, w, fr.f.src, what, show_trace(st.notes()), list(I.callstack[1:]), s.entry)
        if st.mon.get('rd') is not None: kind = kind + '+rd'
        s.reports.setdefault((kind,) + r.key(), r)
    def on_format(s, I, st, fr, ins, d, fm, args): pass

def initial(prog, job):
    name, role, alive, ver, multi, ch = job
    c = Analysis(prog, job); C = c.C; P = prog
    st = new_state()
    c.entry = name
    if name in SETUPS or alive is None:
        if name == 'trax_cleanup':
            st.mem[('arg', 0)] = {0: (NULL, 8)}
            return c, st, [arg(0)]
        st.objs[META] = ('ext', P.didx['trax_metadata']['size'], 'ext', 'metadata')
        v = T.A(('init', META, P.field('trax_metadata', 'channels')[0], 'i32')); st.mem[META] = {P.field('trax_metadata', 'channels')[0]: (v, 4)}
        refine(st, single_atom(v), 1, 7)
        st.objs[('arg', 7)] = ('ext', P.didx['trax_logging']['size'], 'ext', 'logging')
        log = ('p', ('arg', 7), 0)
        fd = lambda i: T.A(('sym', 'fd%d' % i, 0))
        vn = T.A(('sym', 'version', 0)); refine(st, single_atom(vn), -(1 << 31), c.C.get('TRAX_VERSION', 4))
        return c, st, {'trax_client_setup_file': [fd(0), fd(1), log], 'trax_client_setup_socket': [fd(0), fd(1), log],
                       'trax_server_setup_v': [('p', META, 0), log, vn], 'trax_server_setup_file_v': [('p', META, 0), fd(0), fd(1), log, vn]}[name]
    c.alive_run = alive; c.has_handle = True
    st.objs[H] = ('ext', P.didx['trax_handle']['size'], 'ext', 'handle')
    fl = T.A(('init', H, c.f_flags[0], 'i32')); st.mem[H] = {c.f_flags[0]: (fl, 4)}
    one = C['TRAX_FLAG_VALID'] | (C['TRAX_FLAG_SERVER'] if role == 'server' else 0) | (0 if alive else C['TRAX_FLAG_TERMINATED'])
    al = C['TRAX_FLAG_VALID'] | C['TRAX_FLAG_SERVER'] | C['TRAX_FLAG_TERMINATED']
    st.kb[single_atom(fl)] = (al & ~one, one)
    v = T.A(('init', H, c.f_stream[0], 'ptr')); st.mem[H][c.f_stream[0]] = (('p', ('D', v), 0), 8); assume_ne(st, v, 0)
    st.objs[META] = ('ext', P.didx['trax_metadata']['size'], 'ext', 'metadata')
    st.mem[H][c.f_meta[0]] = (('p', META, 0), 8)
    st.mem[META] = {P.field('trax_metadata', 'channels')[0]: (ch, 4)}
    if multi is not None:
        mf = P.field('trax_metadata', 'flags')
        b = consts()['TRAX_METADATA_MULTI_OBJECT']
        m = T.A(('init', META, mf[0], 'i32')); st.mem[META][mf[0]] = (m, 4)
        st.kb[single_atom(m)] = ((0, b) if multi else (b, 0))
    v = T.A(('init', H, c.f_version[0], 'i32')); st.mem[H][c.f_version[0]] = (v, 4)
    if ver[0] == ver[1]: st.mem[H][c.f_version[0]] = (ver[0], 4)
    else: refine(st, single_atom(v), ver[0], ver[1])
    v = T.A(('init', H, c.f_objects[0], 'i32')); st.mem[H][c.f_objects[0]] = (v, 4)
    refine(st, single_atom(v), 0, 1 if multi == 0 else 1 << 20)
    c.objects0 = v
    e = T.A(('init', H, c.f_error[0], 'ptr')); st.mem[H][c.f_error[0]] = (('p', ('D', e), 0), 8)
    # object list and image list arguments
    fs, fr, fp, sz = c.olist_fields()
    st.objs[LIST] = ('ext', sz, 'ext', 'objects')
    n = T.A(('init', LIST, fs[0], 'i32')); st.mem[LIST] = {fs[0]: (n, 4)}
    refine(st, single_atom(n), 0, 1 << 20)
    st.objs[IMGS] = ('ext', P.didx['trax_image_list']['size'], 'ext', 'images')
    c.n_arg = n
    A = {'trax_client_wait': [hp, arg(1), nullable(2)], 'trax_client_initialize': [hp, ip, lp, nullable(3)],
         'trax_client_frame': [hp, ip, lp, nullable(3)], 'trax_server_wait_sot': [hp, arg(1), arg(2), nullable(3)],
         'trax_server_wait_mot': [hp, arg(1), arg(2), nullable(3)], 'trax_server_reply_sot': [hp, nullable(1), nullable(2)],
         'trax_server_reply_mot': [hp, lp], 'trax_terminate': [hp, nullable(1)], 'trax_is_alive': [hp], 'trax_get_error': [hp],
         'trax_cleanup': [arg(0)], 'trax_set_parameter': [hp, T.A(('sym', 'id', 0)), T.A(('sym', 'val', 0))],
         'trax_get_parameter': [hp, T.A(('sym', 'id', 0)), arg(2)]}[name]
    if name == 'trax_cleanup': st.mem[('arg', 0)] = {0: (hp, 8)}
    return c, st, A

def meq(st, x, y):
    """eq, and False when the two differ for some values the inputs can have: only amounts the caller determines
    occur, and the constraints of the path on them allow a pair that differs"""
    r = eq(st, x, y)
    if r is not None or not (is_num(x) and is_num(y)): return r
    p = sub(x, y)
    A = sorted(atoms_of(p))
    if not A or any(T.atom_key(a)[0] != 'init' for a in A): return None
    vals = (0, 1, 2, 3)
    def go(i, s):
        if i == len(A): return eq(s, x, y) is False
        for k in vals:
            t = s.copy()
            if eq(t, ('P', (((A[i],), 1),)), k) is False: continue
            if assume_eq(t, ('P', (((A[i],), 1),)), k) and go(i + 1, t): return True
        return False
    return False if go(0, st.copy()) else None

def post(c, I, st, v, f):
    """what has to hold when the call returns"""
    name, role, alive, ver, multi, ch = c.job
    C = c.C
    class F: pass
    fr = F(); fr.f = f
    ret = f.blocks[0][0]
    where = f.where(ret)
    # the place of return, from the trace
    t = st.notes(1)
    if t and isinstance(t[-1], str) and t[-1].endswith(': return'): where = t[-1][:-8]
    def chk(p, ok, what): c.check(p, ok, I, st, fr, None, what, where)
    def is_(x, k): return eq(st, x, k) if is_num(x) else None
    g = lambda k: ghost(st, k)
    def cell(o, off):
        x = (st.mem.get(o) or {}).get(off)
        return x[0] if x else None
    ERROR, OK = C['TRAX_ERROR'], C['TRAX_OK']
    wrote = bool(st.mon.get('w'))
    if name in SETUPS: return post_setup(c, I, st, v, f, chk, cell)
    if alive is None: return
    quit_w = g(G_QUIT_W)
    bit = c.bit(st, C['TRAX_FLAG_TERMINATED'])
    if name == 'trax_cleanup':
        chk('S02', quit_w == (1 if alive else 0) if is_int(quit_w) else None, 'cleanup of a %s handle sends %s quit messages' % ('live' if alive else 'finished', T.show(quit_w)))
        gone = st.objs.get(H, (0, 0, 'live'))[2] == 'freed'
        chk('M01', gone, 'cleanup does not release the handle')
        for o, nm in ((META, 'metadata'), (None, 'stream'), (None, 'error')): pass
        if gone:
            chk('M01', st.objs.get(META, (0, 0, ''))[2] == 'freed', 'cleanup does not release the metadata')
            s0 = ('D', T.A(('init', H, c.f_stream[0], 'ptr')))
            chk('M01', st.objs.get(s0, (0, 0, ''))[2] == 'freed', 'cleanup does not release the message stream')
        chk('M02', cell(('arg', 0), 0) == NULL, 'cleanup leaves a pointer to the released handle')
        return
    if name == 'trax_terminate':
        chk('S02', quit_w == (1 if alive else 0) if is_int(quit_w) else None, 'terminating a %s handle sends %s quit messages' % ('live' if alive else 'finished', T.show(quit_w)))
        chk('S02', bit, 'the handle still counts as alive after it was terminated')
        chk('S07', is_(v, OK), 'terminate returns %s' % T.show(v))
        return
    chk('S02', quit_w == 0 if is_int(quit_w) else None, '%s sends a quit message' % name)
    if not alive: chk('S02', bit, 'a finished handle is made alive again')
    if name == 'trax_is_alive':
        r = eq(st, v, 0) if is_num(v) else None
        if r is None and is_num(v):
            # decided by what the caller and the session determine: the number of objects, the version
            free = tuple(T.A(('init', H, o[0], 'i32')) for o in (c.f_objects, c.f_version))
            ok = lambda k: any(single_atom(x) is not None and T.atom_key(single_atom(x)) == k for x in free)
            if core.refuted_truth(st, v, alive, ok) is False: r = alive
        chk('S01', r if not alive else (None if r is None else not r), 'a %s handle is reported as %s' % ('live' if alive else 'finished', 'finished' if alive else 'alive'))
        return
    if name == 'trax_get_error':
        e = cell(H, c.f_error[0])
        chk('S07', v == e, 'the error text handed out is not the handle\'s')
        return
    if name in ('trax_set_parameter', 'trax_get_parameter'):
        if not alive: chk('S07', is_(v, ERROR), 'a parameter of a finished handle is accessed without error')
        chk('S03', not wrote, 'a parameter access writes a message')
        return
    err = is_(v, ERROR)
    e = cell(H, c.f_error[0])
    null_e = I.null_state(st, e) if e is not None else None
    objs = cell(H, c.f_objects[0])
    rd = st.mon.get('rd')
    nargs = st.mem[GHOST][56][0]
    if not alive:
        chk('S01', err, '%s on a finished session returns %s' % (name, T.show(v)))
    # status values
    allowed = {'trax_client_wait': ('TRAX_STATE', 'TRAX_QUIT'), 'trax_server_wait_sot': ('TRAX_FRAME', 'TRAX_INITIALIZE', 'TRAX_QUIT'),
               'trax_server_wait_mot': ('TRAX_FRAME', 'TRAX_INITIALIZE', 'TRAX_QUIT')}.get(name, ('TRAX_OK',))
    vals = [C[a] for a in allowed] + [ERROR]
    ok = v in vals if is_int(v) else (False if is_num(v) and all(is_(v, k) is False for k in vals) else None)
    chk('S07', ok, '%s returns the undocumented status %s' % (name, T.show(v)))
    # S03
    if name in REQS and err is not False:
        chk('S03', None if err is None and wrote else not wrote, '%s returns an error after it wrote a message' % name)
    if name in WAITS: chk('S03', not wrote, 'a wait writes a message')
    # S02 for waits
    if name in WAITS and is_(v, C['TRAX_QUIT']): chk('S02', bit, 'a wait returned quit but the handle is still alive')
    if name in WAITS and rd == C['TRAX_QUIT'] and eq(st, nargs, 0) is True and alive:
        chk('S01', bit, 'the peer has quit but the handle is still alive')
    # S07 error text
    if err is True:
        need = None
        if name in REQS: need = 'refused'
        elif rd is None: need = 'handle state'
        else:
            pop = bin(ch).count('1')
            want = {('trax_client_wait', C['TRAX_STATE']): (1,), ('trax_client_wait', C['TRAX_QUIT']): (0,),
                    ('trax_server_wait_sot', C['TRAX_FRAME']): (pop,), ('trax_server_wait_sot', C['TRAX_INITIALIZE']): (pop + 1,), ('trax_server_wait_sot', C['TRAX_QUIT']): (0,),
                    ('trax_server_wait_mot', C['TRAX_FRAME']): (pop,), ('trax_server_wait_mot', C['TRAX_INITIALIZE']): (0, 1), ('trax_server_wait_mot', C['TRAX_QUIT']): (0,)}.get((name, rd))
            if want and all(eq(st, nargs, w) is False for w in want): need = 'argument count'
        if need:
            stale = is_ptr(e) and e[1][0] == 'D' and e[1][1] == T.A(('init', H, c.f_error[0], 'ptr'))
            chk('S07', False if (null_e is True or stale) else True if null_e is False else None, 'no error text is left (%s)' % need)
            if is_ptr(e) and e[1][0] == 'heap' and st.objs.get(e[1], (0, 0, ''))[2] == 'live':
                m = st.mem.get(e[1]) or {}
                chk('S07', bool(m), 'the error text is never filled in')
        elif alive:
            stale = is_ptr(e) and e[1][0] == 'D' and e[1][1] == T.A(('init', H, c.f_error[0], 'ptr')) and null_e is not True
            chk('S07', not stale, 'the text of an earlier failure is kept')
        if e is not None and is_ptr(e): chk('S07', I.obj_status(st, e[1]) != 'freed', 'the error text has been released already')
    if err is False:
        chk('S07', True if null_e is True else False if null_e is False else None, 'a call that succeeds leaves an error text')
    # S04 counts
    o0 = c.objects0
    if name in REQS:
        if err is True: chk('S04', meq(st, objs, o0), 'a refused %s changes the number of active objects' % name)
        elif err is False:
            n = c.n_arg
            legacy = ver[1] < 4
            if name == 'trax_client_initialize':
                chk('S04', meq(st, objs, n), 'after an initialize with %s objects the active count is %s' % (T.show(n), T.show(objs)))
                if multi == 0: chk('S04', le(st, objs, 1), 'a single-object session gets more than one object')
                chk('S04', meq(st, g(G_INIT_W), n), 'initialize sends %s messages for %s objects' % (T.show(g(G_INIT_W)), T.show(n)))
                if not legacy:
                    chk('S04', meq(st, g(G_FRAME_W), 1), 'initialize sends %s frames' % T.show(g(G_FRAME_W)))
                    z = eq(st, o0, 0)
                    if z is not None: chk('S04', bool(st.mon.get('resetw')) == (not z), 'active objects are %s before the new ones are initialized' % ('not reset' if not z else 'reset needlessly'))
            if name == 'trax_client_frame':
                chk('S04', meq(st, objs, add(o0, n)), 'after a frame with %s new objects the active count is %s, from %s' % (T.show(n), T.show(objs), T.show(o0)))
                if multi == 0: chk('S04', le(st, objs, 1), 'a single-object session gets more than one object')
                chk('S04', meq(st, g(G_INIT_W), n), 'frame sends %s initialize messages for %s objects' % (T.show(g(G_INIT_W)), T.show(n)))
                chk('S04', meq(st, g(G_FRAME_W), 1), 'frame sends %s frames' % T.show(g(G_FRAME_W)))
                chk('S04', not st.mon.get('resetw'), 'a frame resets the active objects')
            if name == 'trax_server_reply_mot':
                chk('S04', meq(st, g(G_STATE_W), n), 'a reply with %s regions sends %s states' % (T.show(n), T.show(g(G_STATE_W))))
                chk('S04', meq(st, n, o0), 'a reply with %s regions is accepted for %s active objects' % (T.show(n), T.show(o0)))
                chk('S04', meq(st, objs, o0), 'a reply changes the number of active objects')
            if name == 'trax_server_reply_sot':
                chk('S04', meq(st, g(G_STATE_W), 1), 'a reply sends %s states' % T.show(g(G_STATE_W)))
            if name.startswith('trax_server'): chk('S04', meq(st, g(G_OTHER_W), 0) and meq(st, g(G_FRAME_W), 0) and meq(st, g(G_INIT_W), 0), 'a reply sends something else than states')
    if name == 'trax_client_wait':
        if is_(v, C['TRAX_STATE']): chk('S04', meq(st, g(G_READS), o0), 'a wait reads %s messages for %s active objects' % (T.show(g(G_READS)), T.show(o0)))
        chk('S04', meq(st, objs, o0), 'a wait changes the number of active objects')
    if name == 'trax_server_wait_sot':
        if is_(v, C['TRAX_INITIALIZE']): chk('S04', meq(st, objs, 1), 'after an initialize the active count is %s' % T.show(objs))
        else: chk('S04', meq(st, objs, o0), 'the active count changes without an initialize')
    if name == 'trax_server_wait_mot' and err is not None:
        base = 0 if st.mon.get('reset') else o0
        inits = g(G_INIT_R)
        if is_(v, C['TRAX_FRAME']) or is_(v, C['TRAX_INITIALIZE']):
            chk('S04', meq(st, objs, add(base, inits)), 'active objects %s after %s initialize messages, from %s' % (T.show(objs), T.show(inits), T.show(base)))
            L = cell(('arg', 2), 0)
            if L is not None and eq(st, inits, 0) is True: chk('S05', I.null_state(st, L), 'an object list is handed out although no object was given')
            elif L is not None and eq(st, inits, 0) is False:
                chk('S05', None if I.null_state(st, L) is None else not I.null_state(st, L), 'the objects of initialize messages are not handed out')
                if is_ptr(L):
                    sz = cell(L[1], c.olist_fields()[0][0])
                    if sz is not None and is_num(sz): chk('S04', meq(st, sz, inits), 'the list handed out has %s elements for %s initialize messages' % (T.show(sz), T.show(inits)))
        elif is_(v, C['TRAX_FRAME']) is False and is_(v, C['TRAX_INITIALIZE']) is False: chk('S04', meq(st, objs, base), 'the active count changes although the wait failed or the session ended')
    # S05
    if name in WAITS:
        outs = {'trax_client_wait': (None, 1), 'trax_server_wait_sot': (1, 2), 'trax_server_wait_mot': (1, 2)}[name]
        X = [(k, cell(('arg', k), 0)) for k in outs if k]
        bad = err is True or is_(v, C['TRAX_QUIT'])
        for k, x in X:
            if bad: chk('S05', I.null_state(st, x) if x is not None else False, 'output argument %d still refers to something although the wait returned %s' % (k, 'an error' if err else 'quit'))
            elif x is not None and is_ptr(x): chk('S05', I.obj_status(st, x[1]) != 'freed', 'output argument %d refers to released memory' % k)
        if is_(v, C['TRAX_FRAME']) or is_(v, C['TRAX_INITIALIZE']):
            im = cell(('arg', 1), 0)
            want_images = name == 'trax_server_wait_sot' or rd == C['TRAX_FRAME']
            chk('S05', None if im is None or I.null_state(st, im) is None else not I.null_state(st, im), 'no image list is handed out')
            if is_ptr(im):
                i0 = c.prog.field('trax_image_list', 'images')[0]
                fm = T.A(('init', META, c.prog.field('trax_metadata', 'format_image')[0], 'i32'))
                for k in range(C['TRAX_CHANNELS']):
                    if not (ch >> k) & 1: continue
                    x = cell(im[1], i0 + 8 * k)
                    n = I.null_state(st, x) if x is not None and x != UNDEF else None
                    chk('S05', False if x == UNDEF else None if n is None else not n, 'the image of declared channel %d is missing' % k)
                    if x is not None and is_ptr(x):
                        chk('S05', I.obj_status(st, x[1]) != 'freed', 'the image of channel %d has been released' % k)
                        ty = cell(x[1], c.i_type[0])
                        if ty is not None and is_num(ty):
                            sup = eq(st, band(st, fm, ty), 0)
                            if sup is None: sup = st.mon.get('sup%d' % k)
                            chk('S05', sup is False, 'an image of a kind that was not declared is handed out (channel %d)' % k)
        if name == 'trax_server_wait_sot' and is_(v, C['TRAX_INITIALIZE']):
            x = cell(('arg', 2), 0); n = I.null_state(st, x) if x is not None else None
            chk('S05', None if n is None else not n, 'initialize is returned without a region')
        if name == 'trax_client_wait' and is_(v, C['TRAX_STATE']):
            x = cell(('arg', 1), 0); n = I.null_state(st, x) if x is not None else None
            chk('S05', None if n is None else not n, 'a state is returned without an object list')

def post_setup(c, I, st, v, f, chk, cell):
    C = c.C; name, role = c.job[:2]
    n = I.null_state(st, v)
    if n is True or not is_ptr(v): return
    o = v[1]
    m = st.mem.get(o) or {}
    for fld in ('flags', 'version', 'stream', 'metadata', 'error', 'objects'):
        off, sz = c.prog.field('trax_handle', fld)
        x = m.get(off)
        chk('M02', not (x is None and '*' not in m and 'zero' not in m) and (x is None or x[0] != UNDEF), 'the %s of a new handle is never set' % fld)
    fl = cell(o, c.f_flags[0])
    if fl is not None and is_num(fl):
        for b, want, w in (('TRAX_FLAG_VALID', True, 'valid'), ('TRAX_FLAG_TERMINATED', False, 'finished'), ('TRAX_FLAG_SERVER', role == 'server', 'a server')):
            r = eq(st, band(st, fl, C[b]), 0)
            chk('S02', None if r is None else (not r) == want, 'a new handle is %s%s' % ('' if not want else 'not ', w))
    ob = cell(o, c.f_objects[0])
    if ob is not None and is_num(ob): chk('S04', meq(st, ob, 0), 'a new session starts with %s active objects' % T.show(ob))
    e = cell(o, c.f_error[0])
    if e is not None and e != UNDEF: chk('S07', I.null_state(st, e), 'a new session starts with an error text')
    if role == 'server': chk('S04', meq(st, ghost(st, G_OTHER_W), 1), 'a server introduces itself %s times' % T.show(ghost(st, G_OTHER_W)))
    else: chk('S04', meq(st, ghost(st, G_READS), 1), 'a client reads %s introductions' % T.show(ghost(st, G_READS)))

PROG = None
def work(job):
    try: return work1(job)
    except build.Broken: raise
    except Exception as e:
        import traceback
        return dict(job=job, reports=[], viol=[], obligations={}, accesses={'proved': 0, 'unproved': 0}, unproved=[], incomplete=['analysis stopped: ' + traceback.format_exc()[-600:]],
                    budget=True, steps=0, funcs=[], returns=0, joins=0, time=0)
def work1(job):
    t = time.time()
    c, st, args = initial(PROG, job)
    f = PROG.funcs.get(job[0])
    I, outs = core.run(PROG, c, job[0], st, args)
    n = 0
    if outs is not None:
        for s2, v, kind in outs:
            if kind != 'ret': continue
            n += 1
            post(c, I, s2, v if v is not None else 0, f)
    def r2d(r): return dict(kind=r.kind, where=r.where, func=r.func, what=r.what, trace=r.trace, stack=r.stack, entry='%s, %s%s, version %d-%d%s, channels %d' % (
        job[0], {True: 'live ', False: 'finished ', None: ''}[job[2]], job[1], job[3][0], job[3][1], '' if job[4] is None else ' multi' if job[4] else ' single', job[5]))
    return dict(job=job, reports=[(k[0], r2d(r)) for k, r in c.reports.items()], viol=[(k[0], r2d(r)) for k, r in c.viol.items()],
                obligations=c.obligations, accesses=c.accesses, unproved=[(repr(k), repr(v)) for k, v in c.unproved.items()],
                incomplete=I.incomplete, budget=outs is None, steps=I.nsteps, funcs=sorted(I.stats['functions']), returns=n,
                joins=I.stats['joins'], time=time.time() - t)

def run_all(tier):
    global PROG
    PROG = ir.Program(build.dump('core'))
    core.consts()
    J = jobs(tier)
    for j in J:
        if j[0] not in PROG.funcs or PROG.funcs[j[0]].decl: raise build.Broken('%s is gone' % j[0])
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(work, J, chunksize=1)

LAYER = ('M01', 'M02')
MODELLED = 'models of the lower layers in lib/core.py (message reader/writer W*, property map D01, region and image codecs M04/D05, string lists M03), each decided by its own check'
def run(pid, tier):
    from result import Result, Violation
    R = run_all(tier)
    r = Result('Abstract interpretation of every public session call (src/trax.c, inlined helpers) for each handle state (client/server, live/finished, protocol version, single/multi object, 1..7 image channels) against a peer that may send any message or nothing; the property is checked at every message and at every return.')
    kinds = {'M01': ('leak',), 'M02': ('null', 'freed', 'undef', 'badfree', 'oob')}.get(pid, ())
    paths = 0; steps = 0; funcs = set(); accs = 0
    for j in R:
        o = j['obligations'].get(pid, [0, 0, 0])
        r.obligations += sum(o); r.discharged += o[0]
        steps += j['steps']; paths += j['returns']; funcs.update(j['funcs']); accs += j['accesses']['proved']
        for p, v in j['viol']:
            if p == pid: r.violations.append(Violation(v['where'], v['func'], v['what'], ['entry: ' + v['entry']] + (['via ' + ' > '.join(v['stack'])] if v['stack'] else []) + v['trace'], key='%s: %s' % (j['job'][0], v['what'])))
        for k, v in j['reports']:
            base = k.replace('+rd', '')
            hit = base in kinds or (pid == 'S06' and (k != base or base == 'assert') and base in ('null', 'oob', 'assert') and (j['job'][0] in WAITS or j['job'][0] in SETUPS))
            if hit: r.violations.append(Violation(v['where'], v['func'], v['what'], ['entry: ' + v['entry']] + (['via ' + ' > '.join(v['stack'])] if v['stack'] else []) + v['trace']))
        if pid in ('M02', 'S06'):
            r.obligations += j['accesses']['proved']; r.discharged += j['accesses']['proved']
        if j['budget']: r.inconclusive.append('%r: step budget exhausted, not analysed to the end' % (j['job'],))
        for x in j['incomplete']: r.inconclusive.append('%r: %s' % (j['job'], x))
        for k, w in j['unproved']:
            if k.startswith("('%s'" % pid): r.inconclusive.append('%r: %s at %s' % (j['job'], k, w))
    r.coverage = {'session_runs': len(R), 'session_returns': paths, 'session_steps': steps, 'session_functions': sorted(funcs), 'session_rule': 'each obligation is one demand of the property at one message or return of one abstract path; heap, null and bounds obligations are one per memory access whose size is known'}
    r.assumptions = [MODELLED, 'malloc and realloc succeed; the caller passes valid handles, images and lists']
    j = max(R, key=lambda j: j['obligations'].get(pid, [0])[0])
    r.samples = [{'entry': repr(j['job']), 'obligations': j['obligations'].get(pid), 'returns': j['returns'], 'steps': j['steps']}]
    return r

if __name__ == '__main__':
    t = time.time()
    R = run_all('quick')
    print('%.1fs' % (time.time() - t), len(R), 'jobs', sum(r['steps'] for r in R), 'steps')
    tot = {}
    for r in R:
        if r['budget'] or r['incomplete'] or r['time'] > 10: print(r['job'], 'BUDGET' if r['budget'] else '', r['incomplete'][:1], '%.1f' % r['time'])
        for k, v in r['obligations'].items():
            o = tot.setdefault(k, [0, 0, 0])
            for i in range(3): o[i] += v[i]
    print(tot)
    seen = set()
    for r in R:
        for k, v in r['viol'] + r['reports']:
            z = (k, v['where'], v['what'])
            if z in seen: continue
            seen.add(z); print(k, v['where'], v['func'], v['what'], '|', v['entry'])
    seen = set()
    for r in R:
        for k, v in r['unproved']:
            if k not in seen: seen.add(k); print('  ?', k, v, r['job'])
