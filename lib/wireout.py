"""The transport ends of the wire: taking single bytes in (W03), writing text out (W05), escaping (W01), messages (W06)
and their log (W07).  Same engine as wire.py: each function is interpreted abstractly to a fixpoint against a model of
the layer below, with a monitor for what has to happen."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, UNDEF, NULL, eq, le, refine, assume_eq, assume_ne, assume_le, bounds
from wire import Wire, samebyte, INF

STREAM = ('ext', 'stream'); LOG = ('ext', 'log'); TEXT = ('ext', 'text'); GHOST = ('ext', 'ghost'); ERRNO = ('ext', 'errno')
ARGS = ('ext', 'arguments'); ABUF = ('ext', 'argument array'); ARG = ('ext', 'argument'); PROPS = ('ext', 'properties')
KEY = ('ext', 'key'); VALUE = ('ext', 'value')
SPECIAL = (34, 92, 10)
MSG_NOSIGNAL = 0x4000

class Out(Wire):
    part_limit = 6
    max_states = 400
    max_heads = 200
    steps = 400000
    logging = True
    def __init__(s, P, entry):
        Wire.__init__(s, P, 'out')
        s.entry = entry
        g = lambda n: P.field('message_stream', n)[0]
        s.o_flags = g('flags'); s.o_buf, s.bufsize = P.field('message_stream', 'buffer'); s.o_pos = g('buffer_position'); s.o_len = g('buffer_length')
        un = min(m[1] for m in P.didx['message_stream']['members'] if m[1] >= s.o_flags + 4)
        f = lambda st, n: un + P.field(st, n)[0]
        s.fd = {('files', 'r'): f('files_data', 'input'), ('files', 'w'): f('files_data', 'output'), ('socket', 'r'): f('socket_data', 'socket'), ('socket', 'w'): f('socket_data', 'socket')}
        s.models['__errno_location'] = lambda I, st, fr, ins, args: [(st, ('p', ERRNO, 0))]
    env = ('length', 'got', 'sent')
    def isenv(s, k):
        return k[0] == 'init' and k[1] in (STREAM, ARGS) or k[0] == 'sym' and (k[1] in s.env or (isinstance(k[1], tuple) and k[1] and k[1][-1] in s.env))
    def rel(s, st, fn, a, b):
        """fn(st, a, b), and False when it fails for some lengths the environment can choose"""
        r = fn(st, a, b)
        if r is None and is_num(a) and is_num(b): r = core.refuted(st, lambda t: fn(t, a, b), (a, b), s.isenv)
        return r
    def ghost(s, st, k): return (st.mem.get(GHOST) or {}).get(k, (0, 8))[0]
    def setghost(s, st, k, v):
        m = dict(st.mem.get(GHOST) or {}); m[k] = (v, 8); st.mem[GHOST] = m
    def stream(s, kind, logging):
        st = State()
        st.objs[STREAM] = ('ext', s.prog.didx['message_stream']['size'], 'ext', 'stream')
        st.objs[LOG] = ('ext', s.prog.didx['trax_logging']['size'], 'ext', 'log')
        st.objs[GHOST] = ('ext', 64, 'ext', 'ghost'); st.objs[ERRNO] = ('ext', 4, 'ext', 'errno')
        st.mem[STREAM] = {s.o_flags: ({'files': 1, 'socket': 2, 'listening socket': 10}[kind], 4)}
        s.kind = kind.split()[-1]; s.logging = logging
        off, sz = s.prog.field('trax_logging', 'callback')
        if logging:
            a = T.A(('init', LOG, off, 'ptr')); st.mem[LOG] = {off: (('p', ('D', a), 0), 8)}; assume_ne(st, a, 0)
        else: st.mem[LOG] = {off: (NULL, 8)}
        st.roots = (frozenset([STREAM, LOG, TEXT, GHOST, ARGS, ABUF, ARG, PROPS, KEY, VALUE, ERRNO]),)
        return st
    def isfd(s, I, st, v, d): return eq(st, v, T.A(('init', STREAM, s.fd[(s.kind, d)], 'i32'))) if is_num(v) else None
    def run(s, fname, st, args):
        I = Interp(s.prog, s)
        try: outs = I.call_function(s.prog.funcs[fname], st, args, 'API', 0, ())
        except Budget: return I, None
        return I, [(s2, v) for s2, v, k in outs if k == 'ret']
    def where(s, st, f):
        t = st.notes(1)
        return t[-1][:-8] if t and isinstance(t[-1], str) and t[-1].endswith(': return') else f.where(f.blocks[0][0])
    # what goes to the log
    def logged(s, I, st, fr, ins, args): return [(st, None, 'ret')]
    def on_call(s, I, st, fr, ins, name, args):
        if name is not None: return None
        v = I.val(st, ins.d['callee'])
        off = s.prog.field('trax_logging', 'callback')[0]
        if v == NULL:
            s.check('W07', False, I, st, fr, ins, 'the log callback is called although none is installed'); return []
        if not (is_ptr(v) and v[1][0] == 'D' and v[1][1] == T.A(('init', LOG, off, 'ptr'))) or len(args) != 3: return None
        return s.logged(I, st, fr, ins, args)

# ------------------------------------------------------------------------------------------------ W03
class Chars(Out):
    """read_character: the byte that is due, once, and nothing else"""
    def on_load(s, I, st, fr, ins, p, v):
        if p[1] == STREAM and ins.t == 'i8' and is_num(p[2]) and le(st, s.o_buf, p[2]) is True:
            return T.A(('byte', st.mon.get('reads', 0), p[2]))
        return Wire.on_load(s, I, st, fr, ins, p, v)
    def source(s, I, st, fr, ins, args, sock):
        m = st.mon
        d = s.isfd(I, st, args[0], 'r')
        s.check('W03', None if d is None else d and sock == (s.kind == 'socket'), I, st, fr, ins, 'bytes are taken from another descriptor than the stream\'s')
        p, n = args[1], args[2]
        s.check('W03', m['unread'] is False, I, st, fr, ins, 'more is read although received bytes are still unread')
        s.check('W03', not m.get('failed') or s.retry(st), I, st, fr, ins, 'the stream is read again after its end')
        if not (is_ptr(p) and p[1] == STREAM): s.check('W03', None, I, st, fr, ins, 'destination of the read'); return []
        lo = s.rel(st, le, s.o_buf, p[2]); hi = s.rel(st, le, add(p[2], n), s.o_buf + s.bufsize)
        s.check('W03', False if False in (lo, hi) else None if None in (lo, hi) else True, I, st, fr, ins, 'up to %s bytes are read to offset %s of a receive buffer of %d bytes' % (T.show(n), T.show(sub(p[2], s.o_buf)), s.bufsize))
        s.check('W03', s.rel(st, le, 1, n), I, st, fr, ins, 'nothing is asked for, which looks like the end of the stream')
        if sock and len(args) > 3: s.check('W03', {True: True, False: False}.get(eq(st, args[3], 0)) if is_num(args[3]) else None, I, st, fr, ins, 'bytes are received with flags (such as peeking) that change what is taken')
        out = []
        for k in ('end', 'error', 'data'):
            t = st.copy()
            if k == 'data':
                v = I.fresh(t, (fr.uid, ins.id, 'got'), 1, INF); assume_le(t, v, n)
                t.mon['unread'] = True; t.mon['reads'] = m.get('reads', 0) + 1; t.mon['first'] = p[2]; t.mon['count'] = v
                t.note('%s: bytes arrive' % fr.f.where(ins))
            else:
                v = 0 if k == 'end' else -1
                t.mon['failed'] = 1; t.note('%s: %s' % (fr.f.where(ins), 'end of file' if k == 'end' else 'the read fails'))
                t.mem[ERRNO] = {0: (I.fresh(t, (fr.uid, ins.id, 'errno'), 1, 200), 4)}
            out.append((t, v))
        return out
    def retry(s, st):
        e = (st.mem.get(ERRNO) or {}).get(0)
        if not e: return False
        l, h = bounds(st, e[0])
        return l == h and l in (4, 11)
    def m_recv(s, I, st, fr, ins, args): return s.source(I, st, fr, ins, args, True)
    def m_read(s, I, st, fr, ins, args): return s.source(I, st, fr, ins, args, False)

def chars(P):
    res = []; stats = dict(cases=0, returns=0)
    c = Chars(P, 'read_character')
    names = [n for n, f in P.funcs.items() if f.src == 'read_character' and not f.decl]
    if not names: return None, ['read_character']
    f = P.funcs[names[0]]
    for kind in ('files', 'socket', 'listening socket'):
        for case in ('unread', 'used up'):
            st = c.stream(kind, True)
            pos = T.A(('init', STREAM, c.o_pos, 'i32')); ln = T.A(('init', STREAM, c.o_len, 'i32'))
            refine(st, single_atom(pos), 0, c.bufsize); refine(st, single_atom(ln), 0 if case == 'unread' else -1, c.bufsize)
            if case == 'unread': assume_le(st, add(pos, 1), ln)
            else: assume_le(st, ln, pos)
            st.mon = {'unread': case == 'unread', 'first': add(pos, c.o_buf), 'count': sub(ln, pos), 'reads': 0}
            stats['cases'] += 1
            I, outs = c.run(names[0], st, [('p', STREAM, 0)])
            if outs is None: c.check('W03', None, I, st, None, None, 'analysis of %s' % case, f.where(f.blocks[0][0])); continue
            for s2, v in outs:
                stats['returns'] += 1
                w = c.where(s2, f)
                m = s2.mon
                chk = lambda ok, what: c.check('W03', ok, I, s2, None, None, what, w)
                mm = s2.mem.get(STREAM) or {}
                p2 = mm.get(c.o_pos, (pos, 4))[0]; l2 = mm.get(c.o_len, (ln, 4))[0]
                if not m['unread']:
                    chk(bool(m.get('failed')), 'the end of the stream is reported although nothing was read')
                    lo, hi = bounds(s2, v) if is_num(v) else (-INF, INF)
                    chk(True if hi < 0 else False if lo >= 0 else None, 'the end of the stream is reported as %s, which is a byte' % T.show(v))
                    if is_num(p2) and is_num(l2): chk(c.rel(s2, le, l2, p2), 'after the end of the stream the buffer counts as filled')
                    continue
                a = ('byte', m['reads'], m['first'])
                x = single_atom(v) if is_poly(v) else None
                k = atom_key(x) if x is not None else None
                lo, hi = bounds(s2, v) if is_num(v) else (-INF, INF)
                want = T.A(a)
                if k is not None and k == ('op', 'zext8', want): chk(True, '')
                elif v == want: chk(False, 'bytes from 128 on are reported as negative numbers, which mean the end of the stream')
                elif hi < 0: chk(False, 'the end of the stream is reported although a byte was received')
                elif k is not None and k[0] == 'byte' or k is not None and k[:2] == ('op', 'zext8') and is_poly(k[2]) and atom_key(single_atom(k[2]) or 0)[0] == 'byte' if k else False:
                    kk = k if k[0] == 'byte' else atom_key(single_atom(k[2]))
                    same = kk[1] == m['reads'] and eq(s2, kk[2], m['first'])
                    chk(same if same is not None else None, 'the byte at offset %s of the buffer is reported where %s is due' % (T.show(sub(kk[2], c.o_buf)), T.show(sub(m['first'], c.o_buf))))
                else: chk(None, 'value reported for a byte')
                # what is left
                if is_num(p2) and is_num(l2):
                    r = c.rel(s2, eq, add(p2, c.o_buf), add(m['first'], 1)) 
                    chk(r, 'the next byte is expected at %s where %s is due' % (T.show(p2), T.show(add(sub(m['first'], c.o_buf), 1))))
                    r2 = c.rel(s2, eq, sub(l2, p2), sub(m['count'], 1))
                    chk(r2, '%s bytes count as unread where %s are' % (T.show(sub(l2, p2)), T.show(sub(m['count'], 1))))
    return c, stats

# ------------------------------------------------------------------------------------------------ W05, W07
class Sink(Out):
    def out(s, I, st, fr, ins, args, sock):
        m = st.mon
        if m.get('failed'):
            e = (st.mem.get(ERRNO) or {}).get(0)
            l, h = bounds(st, e[0]) if e else (0, 1)
            again = l == h and l in (4, 11)
            s.check('W05', again, I, st, fr, ins, 'the write is repeated after it failed')
            if not again: return []
            m['failed'] = 0
        d = s.isfd(I, st, args[0], 'w')
        s.check('W05', None if d is None else d and sock == (s.kind == 'socket'), I, st, fr, ins, 'text is written to another descriptor than the stream\'s')
        p, n = args[1], args[2]
        sent = s.ghost(st, 0)
        if not (is_ptr(p) and p[1] == TEXT):
            s.check('W05', None if not is_ptr(p) else False, I, st, fr, ins, 'something else than the given text is written'); return []
        s.check('W05', s.rel(st, eq, p[2], sent), I, st, fr, ins, 'the write starts at byte %s although %s were transferred before' % (T.show(p[2]), T.show(sent)))
        s.check('W05', s.rel(st, le, add(p[2], n), s.len), I, st, fr, ins, 'bytes behind the end of the text are written')
        s.check('W05', s.rel(st, le, 1, n), I, st, fr, ins, 'the write loop continues although nothing is left')
        if sock:
            fl = args[3] if len(args) > 3 else 0
            s.check('W05', bool(fl & MSG_NOSIGNAL) if is_int(fl) else None, I, st, fr, ins, 'sending to a closed socket raises a signal')
        out = []
        t = st.copy()
        v = I.fresh(t, (fr.uid, ins.id, 'sent'), 1, INF); assume_le(t, v, n)
        s.setghost(t, 0, add(sent, v)); t.note('%s: part of the text is taken' % fr.f.where(ins))
        out.append((t, v))
        if not sock and not m.get('zero'):
            t = st.copy(); t.mon['zero'] = 1; t.note('%s: nothing is taken (0 is returned)' % fr.f.where(ins))
            out.append((t, 0))
        t = st.copy(); t.mon['failed'] = 1; t.note('%s: the write fails' % fr.f.where(ins))
        t.mem[ERRNO] = {0: (I.fresh(t, (fr.uid, ins.id, 'errno'), 1, 200), 4)}
        out.append((t, -1))
        return out
    def m_send(s, I, st, fr, ins, args): return s.out(I, st, fr, ins, args, True)
    def m_write(s, I, st, fr, ins, args): return s.out(I, st, fr, ins, args, False)
    def logged(s, I, st, fr, ins, args):
        p, n = args[0], args[1]
        if p == NULL: return [(st, None, 'ret')]
        lg = s.ghost(st, 8)
        if not (is_ptr(p) and p[1] == TEXT):
            s.check('W07', None if not is_ptr(p) else False, I, st, fr, ins, 'something else than the text that was sent is logged'); return [(st, None, 'ret')]
        s.check('W07', s.rel(st, eq, p[2], lg), I, st, fr, ins, 'the log gets bytes from %s on although %s were logged before' % (T.show(p[2]), T.show(lg)))
        s.check('W07', s.rel(st, le, add(p[2], n), s.ghost(st, 0)), I, st, fr, ins, 'bytes that were not sent are logged')
        s.setghost(st, 8, add(p[2], n))
        return [(st, None, 'ret')]

def sink(P):
    stats = dict(cases=0, returns=0)
    if 'write_buffer' not in P.funcs or P.funcs['write_buffer'].decl: return None, ['write_buffer']
    f = P.funcs['write_buffer']
    c = Sink(P, 'write_buffer')
    for kind in ('files', 'socket', 'listening socket'):
        for logging in (True, False):
            for empty in (False, True):
                st = c.stream(kind, logging)
                c.len = n = 0 if empty else T.A(('sym', 'length', 0))
                if not empty: refine(st, single_atom(n), 1, (1 << 31) - 1)
                st.objs[TEXT] = ('ext', n, 'ext', 'text')
                c.setghost(st, 0, 0); c.setghost(st, 8, 0)
                stats['cases'] += 1
                I, outs = c.run('write_buffer', st, [('p', STREAM, 0), ('p', TEXT, 0), n, ('p', LOG, 0)])
                if outs is None: c.check('W05', None, I, st, None, None, 'analysis did not finish', f.where(f.blocks[0][0])); continue
                for s2, v in outs:
                    stats['returns'] += 1
                    w = c.where(s2, f)
                    lo, hi = bounds(s2, v) if is_num(v) else (-INF, INF)
                    if s2.mon.get('failed'): c.check('W05', True if hi < 0 else False if lo >= 0 else None, I, s2, None, None, 'a failed write is reported as success', w)
                    elif s2.mon.get('zero') and hi < 0: c.check('W05', True, I, s2, None, None, '', w)
                    else:
                        c.check('W05', c.rel(s2, eq, c.ghost(s2, 0), n), I, s2, None, None, 'only %s of %s bytes are written' % (T.show(c.ghost(s2, 0)), T.show(n)), w)
                        c.check('W05', True if lo >= 0 else False if hi < 0 else None, I, s2, None, None, 'a complete write is reported as failure', w)
                        if logging: c.check('W07', c.rel(s2, eq, c.ghost(s2, 8), n), I, s2, None, None, 'only %s of %s bytes sent are logged' % (T.show(c.ghost(s2, 8)), T.show(n)), w)
    return c, stats

# ------------------------------------------------------------------------------------------------ W01: escaping
class Escape(Out):
    """write_buffer_escaped as a transducer; ghost 0: next input byte whose output is due, ghost 8: end of the bytes
    known to need no escape"""
    def special(s, st, at, c):
        """can the input byte there be c?"""
        a = single_atom(T.A(('init', TEXT, at, 'i8')))
        i = st.info.get(a)
        return i is None or (i[0] <= c <= i[1] and c not in i[2])
    def narrow(s, st):
        """what the byte behind the escape character can be"""
        m = st.mon
        if m.get('esc'):
            nx = s.ghost(st, 0)
            m['esc'] = frozenset(k for k in m['esc'] if k != 'other' and s.special(st, nx, k)) or frozenset(['other'])
    def advance(s, I, st):
        s.narrow(st)
        for k in range(3):
            S = s.ghost(st, 8)
            if is_num(S) and not any(s.special(st, S, c) for c in SPECIAL): s.setghost(st, 8, add(S, 1))
            else: return
    part_limit = 24
    def on_back(s, I, st, fr, head):
        s.advance(I, st)
        # kept apart: which variables are at the byte that is due, one before or one behind it
        nx = s.ghost(st, 0)
        st.mon['rel'] = frozenset((c, d) for c, v in I.cells(st) if is_num(v) and not (c[0] == 'm' and c[1] == GHOST) for d in (sub(v, nx),) if d in (-1, 0, 1)) if is_num(nx) else None
    def m_write_buffer(s, I, st, fr, ins, args):
        m = st.mon
        W = 'W01'
        if m.get('failed'): return [(st, -1)]
        s.advance(I, st)
        p, n = args[1], args[2]
        nxt = s.ghost(st, 0)
        if is_ptr(p) and p[1] == TEXT:
            z = le(st, n, 0)
            if z is not True:
                ok = eq(st, p[2], nxt)
                s.check(W, ok, I, st, fr, ins, 'output continues with input byte %s where %s is due' % (T.show(p[2]), T.show(nxt)))
                S = s.ghost(st, 8)
                end = add(p[2], n)
                if m.get('esc'):
                    # the byte behind an escape character
                    s.check(W, 10 not in m['esc'], I, st, fr, ins, 'a newline is written raw behind an escape character')
                    s.check(W, 110 not in m['esc'], I, st, fr, ins, 'the letter n is escaped, which reads as a newline')
                    m['esc'] = 0
                inside = le(st, end, S)
                if inside is not True:
                    c = [k for k in SPECIAL if s.special(st, S, k)]
                    over = le(st, add(S, 1), end)
                    if over is True and c: s.check('W06' if 10 in c or 34 in c else W, False, I, st, fr, ins, 'the byte %s can reach the stream without an escape' % ' or '.join(repr(chr(k)) for k in c)); s.check(W, False, I, st, fr, ins, 'the byte %s can reach the stream without an escape' % ' or '.join(repr(chr(k)) for k in c))
                    else: s.check(W, None, I, st, fr, ins, 'text written without an escape')
                else: s.check(W, True, I, st, fr, ins, '')
                s.setghost(st, 0, end)
                if inside is None: s.setghost(st, 8, end)
        else:
            t = libc.cstr(I, st, p)
            if t is None or not is_int(n):
                # a single character in a local buffer
                x = (st.mem.get(p[1]) or {}).get(p[2]) if is_ptr(p) else None
                if n == 1 and x and is_int(x[0]): t = bytes([x[0] & 255])
                elif n == 1 and x and eq(st, x[0], T.A(('init', TEXT, nxt, 'i8'))) is True:
                    return s.m_write_buffer(I, st, fr, ins, [args[0], ('p', TEXT, nxt), 1, args[3]])
                else:
                    s.check(W, None, I, st, fr, ins, 'output of unknown text'); m['failed'] = 1; return [(st, 1)]
            for ch in t[:n]:
                s.narrow(st)
                if m.get('esc'):
                    want = 10 if ch == 110 else ch
                    s.check(W, m['esc'] == frozenset([want]) and ch != 10, I, st, fr, ins, 'the sequence \\%c is written for another byte' % ch)
                    nxt = add(nxt, 1); s.setghost(st, 0, nxt)
                    m['esc'] = 0
                elif ch == 92:
                    S = s.ghost(st, 8)
                    s.check(W, eq(st, nxt, S) if is_num(S) else None, I, st, fr, ins, 'an escape character is written before the bytes preceding the special one')
                    m['esc'] = frozenset((10, 34, 92, 110)); s.narrow(st)
                    s.setghost(st, 8, add(nxt, 1))
                else: s.check(W, False, I, st, fr, ins, 'the character %r is inserted' % chr(ch))
        out = [(st, 1)]
        if n != 0:
            t = st.copy(); t.mon['failed'] = 1; t.note('%s: the write fails' % fr.f.where(ins)); out.append((t, -1))
        return out

def escape(P):
    stats = dict(cases=0, returns=0)
    miss = [n for n in ('write_buffer', 'write_buffer_escaped') if n not in P.funcs or P.funcs[n].decl]
    if miss: return None, miss
    f = P.funcs['write_buffer_escaped']
    c = Escape(P, 'write_buffer_escaped')
    for empty in (False, True):
        st = c.stream('files', False)
        n = 0 if empty else T.A(('sym', 'length', 0))
        if not empty: refine(st, single_atom(n), 1, (1 << 31) - 1)
        st.objs[TEXT] = ('ext', n, 'ext', 'text')
        c.setghost(st, 0, 0); c.setghost(st, 8, 0)
        stats['cases'] += 1
        I, outs = c.run('write_buffer_escaped', st, [('p', STREAM, 0), ('p', TEXT, 0), n, ('p', LOG, 0)])
        if outs is None: c.check('W01', None, I, st, None, None, 'analysis did not finish', f.where(f.blocks[0][0])); continue
        for s2, v in outs:
            stats['returns'] += 1
            if s2.mon.get('failed'): continue
            w = c.where(s2, f)
            c.check('W01', not s2.mon.get('esc'), I, s2, None, None, 'the text ends with an escape character', w)
            c.check('W01', eq(s2, c.ghost(s2, 0), n), I, s2, None, None, 'only %s of %s bytes are written' % (T.show(c.ghost(s2, 0)), T.show(n)), w)
    return c, stats

# ------------------------------------------------------------------------------------------------ W06, W07: messages
NAMES = {'TRAX_HELLO': ('hello',), 'TRAX_INITIALIZE': ('initialize',), 'TRAX_STATE': ('state', 'status'), 'TRAX_FRAME': ('frame',), 'TRAX_QUIT': ('quit',)}
class Message(Out):
    """the grammar of an outgoing message"""
    part_limit = 12
    def __init__(s, P):
        Out.__init__(s, P, 'write_message'); s.written = {}
        for n in ('list_get',):
            for k in [k for k, f in P.funcs.items() if f.src == n and not f.decl]: s.models[k] = s.m_list_get_
        s.o_lbuf = P.field('string_list', 'buffer')[0]; s.o_lpos = P.field('string_list', 'position')[0]
        s.models['free'] = lambda I, st, fr, ins, args: [(st, None)] if is_ptr(args[0]) and args[0][1] == ARG else libc.MODELS['free'](I, st, fr, ins, args)
    def take(s, st, ix):
        s.setghost(st, 8, ix)
        libc.forget_len(st, ARG)
        return ('p', ARG, 0)
    def on_load(s, I, st, fr, ins, p, v):
        if p[1] == ABUF and is_num(p[2]): return s.take(st, I.exact_div(p[2], 8))
        return Wire.on_load(s, I, st, fr, ins, p, v)
    def m_list_get_(s, I, st, fr, ins, args): return [(st, s.take(st, args[1]))]
    W = 'W06'
    def feed(s, I, st, fr, ins, c):
        m = st.mon; g = m['g']
        no = lambda what: (s.check(s.W, False, I, st, fr, ins, what), m.__setitem__('g', 'LOST'))
        if g == 'LOST': return
        if isinstance(g, int):
            if c == b'@@TRAX:'[g]: m['g'] = g + 1 if g < 6 else 'NAME'; m['nm'] = ''
            else: no('the prefix is not written as it should')
        elif g == 'NAME':
            if c == 32 or c == 10:
                s.written.setdefault(m['ty'], set()).add(m['nm'])
                s.check(s.W, m['nm'].lower() in NAMES[m['ty']], I, st, fr, ins, 'a message of type %s is named %r' % (m['ty'], m['nm']))
                m['g'] = 'GAP' if c == 32 else 'END'
            else: m['nm'] += chr(c)
        elif g == 'GAP':
            if c == 34: m['g'] = 'OPEN'
            elif c == 32: pass
            elif c == 10: m['g'] = 'END'
            else: no('unquoted text %r is written between the arguments' % chr(c))
        elif g == 'OPEN':
            if c == 34: no('an empty argument that was not given is written')
            else: no('text %r that was not given is written inside the quotes' % chr(c))
        elif g == 'TEXT':
            if c == 34: m['g'] = 'CLOSED'
            else: no('text %r that was not given is written inside the quotes' % chr(c))
        elif g == 'KEY':
            if c == 61: m['g'] = 'EQ'
            else: no('the name of a property is not followed by =')
        elif g == 'EQ': no('a property is written without its value')
        elif g == 'CLOSED':
            if c == 32: m['g'] = 'GAP'
            elif c == 10: m['g'] = 'END'
            else: no('a quoted argument is not followed by a space')
        elif g == 'END': no('something is written after the final newline')
    def text(s, I, st, fr, ins, p, n, escaped):
        m = st.mon; g = m['g']
        if g == 'LOST': return
        o = p[1]
        full = (eq(st, p[2], 0) is True and eq(st, n, libc.strlen_term(I, st, ('p', o, 0)))) if is_num(p[2]) and is_num(n) else None
        what = {ARG: 'an argument', KEY: 'the name of a property', VALUE: 'the value of a property'}[o]
        s.check(s.W, full, I, st, fr, ins, '%s is written only in part' % what)
        if o != KEY: s.check(s.W, bool(escaped), I, st, fr, ins, '%s is written without escaping it' % what)
        if o == ARG:
            if g != 'OPEN': s.check(s.W, False, I, st, fr, ins, 'an argument is written outside quotes' if g != 'TEXT' else 'two arguments are written as one'); m['g'] = 'LOST'; return
            ix = s.ghost(st, 8); nx = s.ghost(st, 0)
            s.check(s.W, eq(st, ix, nx), I, st, fr, ins, 'argument %s is written where argument %s is due' % (T.show(ix), T.show(nx)))
            s.setghost(st, 0, add(ix, 1)); m['g'] = 'TEXT'
        elif o == KEY:
            s.check(s.W, g == 'OPEN', I, st, fr, ins, 'the name of a property is written outside quotes'); m['g'] = 'KEY' if g == 'OPEN' else 'LOST'
        else:
            s.check(s.W, g == 'EQ', I, st, fr, ins, 'the value of a property is written where it is not due'); m['g'] = 'TEXT' if g == 'EQ' else 'LOST'
            m['done'] = 1
    def emit(s, I, st, fr, ins, args, escaped):
        m = st.mon
        p = args[0]
        if not (is_ptr(p) and p[1] == STREAM): s.check(s.W, None, I, st, fr, ins, 'stream that is written to')
        p, n = args[1], args[2]
        s.check('W07', not m.get('fl'), I, st, fr, ins, 'the log is flushed in the middle of a message')
        s.check('W07', args[3] == ('p', LOG, 0) if args[3] == NULL or is_ptr(args[3]) else None, I, st, fr, ins, 'a piece of a message is written without the log')
        if is_ptr(p) and p[1] in (ARG, KEY, VALUE): s.text(I, st, fr, ins, p, n, escaped)
        else:
            t = libc.cstr(I, st, p)
            if t is None and is_ptr(p) and n == 1:
                x = (st.mem.get(p[1]) or {}).get(p[2])
                if x and is_int(x[0]): t = bytes([x[0] & 255])
            if t is None or not is_int(n) or n > len(t):
                s.check(s.W, None, I, st, fr, ins, 'output of unknown text'); m['g'] = 'LOST'
            else:
                t = t[:max(n, 0)]
                if escaped: t = t.replace(b'\\', b'\\\\').replace(b'"', b'\\"').replace(b'\n', b'\\n')
                for c in t: s.feed(I, st, fr, ins, c)
        r = [(st, 1)]
        if m['g'] != 'LOST' and ins.t:
            t = st.copy(); t.mon['g'] = 'LOST'; t.mon['failed'] = 1; t.note('%s: the write fails' % fr.f.where(ins)); r.append((t, -1))
        return r
    def m_write_buffer(s, I, st, fr, ins, args): return s.emit(I, st, fr, ins, args, False)
    def m_write_buffer_escaped(s, I, st, fr, ins, args): return s.emit(I, st, fr, ins, args, True)
    def m_trax_properties_enumerate(s, I, st, fr, ins, args):
        cb = args[1]
        m = st.mon
        if args[0] != ('p', PROPS, 0): s.check(s.W, None if not is_ptr(args[0]) else False, I, st, fr, ins, 'other properties than the given ones are written')
        s.check(s.W, not m.get('enum') or None, I, st, fr, ins, 'the properties are written twice')
        m['enum'] = 1
        out = [(st.copy(), None)]
        if not (is_ptr(cb) or (isinstance(cb, tuple) and cb[0] in ('f',))): s.check(s.W, None, I, st, fr, ins, 'callback of the property enumeration'); return out
        name = cb[1] if cb[0] == 'f' else None
        f = s.prog.funcs.get(name)
        if f is None or f.decl: s.check(s.W, None, I, st, fr, ins, 'callback of the property enumeration'); return out
        work = [st]
        for rnd in range(2):
            nw = []
            for t in work:
                t.mon['done'] = 0
                for o in (KEY, VALUE): libc.forget_len(t, o)
                t.note('a property is written')
                for s2, v, k in I.call_function(f, t, [('p', KEY, 0), ('p', VALUE, 0), args[2]], (fr.uid, ins.id, 'cb', rnd), 1, (fr.ctx, ins.id)):
                    if k != 'ret': continue
                    if s2.mon['g'] != 'LOST':
                        s.check(s.W, bool(s2.mon['done']) and s2.mon['g'] in ('CLOSED', 'GAP'), I, s2, fr, ins, 'a property is not written completely')
                    s2.mon['done'] = 0
                    nw.append(s2)
            out += [(x.copy(), None) for x in nw]
            work = nw
        return out
    def logged(s, I, st, fr, ins, args):
        m = st.mon
        if args[0] == NULL:
            s.check('W07', not m.get('fl'), I, st, fr, ins, 'the log is flushed twice')
            m['fl'] = 1
        else: s.check('W07', None, I, st, fr, ins, 'text is logged by write_message itself')
        return [(st, None, 'ret')]

def message(P):
    stats = dict(cases=0, returns=0)
    miss = [n for n in ('write_buffer', 'write_buffer_escaped', 'write_message', 'trax_properties_enumerate') if n not in P.funcs or P.funcs[n].decl]
    if miss: return None, miss
    f = P.funcs['write_message']
    c = Message(P)
    for ty in NAMES:
        for logging in (True, False):
            for ar in (True, False):
                for pr in (True, False):
                    st = c.stream('files', logging)
                    n = T.A(('init', ARGS, c.o_lpos, 'i32')); refine(st, single_atom(n), 0, 1 << 20)
                    st.objs[ARGS] = ('ext', P.didx['string_list']['size'], 'ext', 'arguments')
                    st.objs[ABUF] = ('ext', mul(n, 8), 'ext', 'argument array')
                    for o in (ARG, KEY, VALUE): st.objs[o] = ('ext', None, 'ext', o[1])
                    st.objs[PROPS] = ('ext', P.didx['trax_properties']['size'] if 'trax_properties' in P.didx else 8, 'ext', 'properties')
                    st.mem[ARGS] = {c.o_lbuf: (('p', ABUF, 0), 8), c.o_lpos: (n, 4)}
                    c.setghost(st, 0, 0); c.setghost(st, 8, -1)
                    st.mon = {'g': 0, 'ty': ty}
                    stats['cases'] += 1
                    I, outs = c.run('write_message', st, [('p', STREAM, 0), ('p', LOG, 0), c.C[ty], ('p', ARGS, 0) if ar else NULL, ('p', PROPS, 0) if pr else NULL])
                    if outs is None: c.check('W06', None, I, st, None, None, 'analysis did not finish', f.where(f.blocks[0][0])); continue
                    for s2, v in outs:
                        stats['returns'] += 1
                        w = c.where(s2, f); m = s2.mon
                        if logging and (m['g'] != 'LOST'): c.check('W07', bool(m.get('fl')), I, s2, None, None, 'the log is not flushed after a message', w)
                        if m['g'] == 'LOST': continue
                        c.check('W06', m['g'] == 'END', I, s2, None, None, 'the message does not end with a newline' if m['g'] != 0 else 'nothing is written for a message of type %s' % ty, w)
                        if m['g'] != 'END': continue
                        if ar: c.check('W06', c.rel(s2, eq, c.ghost(s2, 0), n), I, s2, None, None, 'only %s of the %s arguments are written' % (T.show(c.ghost(s2, 0)), T.show(n)), w)
                        if pr: c.check('W06', bool(m.get('enum')), I, s2, None, None, 'the properties are not written', w)
    return c, stats

if __name__ == '__main__':
    import time
    t = time.time()
    P = ir.Program(build.dump('core'))
    for fn in (chars, sink, escape, message):
        c, stats = fn(P)
        print(fn.__name__, stats, '%.1f' % (time.time() - t))
        if c:
            print(c.obligations, len(c.states))
            for k, r in c.viol.items(): print(k[0], r.where, r.what); print('     ' + '\n     '.join(str(x)[:100] for x in r.trace[-8:]))
            for k, r in list(c.reports.items())[:5]: print('R', r.kind, r.where, r.what)
            for k, w in list(c.unproved.items())[:10]: print(' ?', k, w)
