"""The wire: the message reader and writer (src/message.c).

Reader (W01, W02, W07): abstract interpretation of the reader to a fixpoint against an environment that supplies one
byte at a time.  The environment first sends anything at all (reference line automaton below) and may, at the start of
any line, switch to a message exactly as the writer would write it.  A monitor compares what the reader does with each
byte - what it appends to which buffer, what it hands over, when it returns - with what was sent.
Writer (W05, W06, W07): the same technique on the output side."""
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, UNDEF, NULL, eq, le, refine, assume_eq, assume_ne, bounds
from core import Base, Report, show_trace
from result import Result, Violation

PREFIX = b'@@TRAX:'
GH = 1 << 40           # ghost cell of a text buffer or string: what it holds
EMPTY, KEY, VAL, NAME, OTHER = 0, 1, 2, 3, 9
STREAM = None
ARGS = ('ext', 'arguments'); PROPS = ('ext', 'properties'); LOG = ('ext', 'log'); CT = ('ext', 'ctype')
ALNUM = [(48, 57), (65, 90), (97, 122)]
OTHERS = [(0, 9), (11, 12), (14, 31), (33, 33), (35, 47), (58, 60), (62, 63), (91, 91), (93, 96), (123, 127), (128, 255)]
def ch(c): return repr(chr(c))

class Wire(Base):
    part_limit = 60
    max_states = 100000
    max_heads = 3000
    steps = 3000000
    def __init__(s, P, mode):
        Base.__init__(s)
        s.prog = P; s.mode = mode; s.viol = {}; s.obligations = {}
        s.C = core.consts()
        s.models = dict(libc.MODELS)
        al = {}
        for n, f in P.funcs.items():
            if not f.decl: al.setdefault(f.src, []).append(n)
        for n in dir(s):
            if n.startswith('m_'):
                for k in al.get(n[2:], [n[2:]]): s.models[k] = getattr(s, n)
        s.models['__ctype_b_loc'] = lambda I, st, fr, ins, args: [(st, ('p', ('ext', 'ctypep'), 0))]
        s.states = set()
    def check(s, prop, ok, I, st, fr, ins, what, where=None):
        o = s.obligations.setdefault(prop, [0, 0, 0])
        o[0 if ok is True else 1 if ok is False else 2] += 1
        if ok is False:
            w = where or (fr.f.where(ins) if ins is not None else '?')
            src = fr.f.src if fr else s.entry
            r = Report(prop, w, src, what, show_trace(st.notes(14)), list(I.callstack[1:]), s.entry)
            s.viol.setdefault((prop,) + r.key(), r)
        elif ok is None: s.unproved.setdefault((prop, s.entry, what), where or '')
        return ok
    # ctype table of the C locale
    def on_load(s, I, st, fr, ins, p, v):
        if p[1] == ('ext', 'ctypep'): return ('p', CT, 0)
        if p[1] == CT:
            lo, hi = bounds(st, p[2])
            if lo == -INF or hi == INF or hi - lo > 600: return v
            vals = set(); b = 0
            bits = [ctype(k) for k in range(int(lo) // 2, int(hi) // 2 + 1)]
            if len(set(bits)) == 1: return bits[0]
            al = set(x & 8 for x in bits)
            if is_num(v):
                a = single_atom(v)
                if a is not None and len(al) == 1:
                    st.kb[a] = (0, 8) if 8 in al else (8, 0)
            return v
        return Base.on_load(s, I, st, fr, ins, p, v)
INF = float('inf')
def ctype(c):
    if c < 0: return 0
    m = 0
    x = chr(c)
    if c < 128:
        for bit, f in enumerate((x.isupper(), x.islower(), x.isalpha(), x.isdigit(), x in '0123456789abcdefABCDEF', x in ' \t\n\v\f\r', 32 <= c < 127, 32 < c < 127, x in ' \t', c < 32 or c == 127, 32 < c < 127 and not x.isalnum(), x.isalnum())):
            if f: m |= ((1 << bit) << 8) if bit < 8 else ((1 << bit) >> 8)
    return m

def samebyte(st, a, b):
    """a (a byte 0..255) and b (a char, either signedness) are the same byte"""
    if not is_num(a) or not is_num(b): return None
    r = [eq(st, a, add(b, k)) for k in (0, 256)]
    if True in r: return True
    if r == [False, False]:
        return False
    # trunc/sext terms of the same atom
    la, ha = bounds(st, a)
    return None

class Reader(Wire):
    """environment and monitor of the reader"""
    MSG = PREFIX + b'hello'
    # --- text buffers and strings as ghosts
    def cell(s, st, o):
        c = (st.mem.get(o) or {}).get(GH)
        return c[0] if c else None
    def setcell(s, st, o, v):
        m = dict(st.mem.get(o) or {}); m[GH] = (v, 4); st.mem[o] = m
    def m_buffer_create(s, I, st, fr, ins, args):
        o = I.newobj(st, 'heap', libc.site(fr, ins), 16)
        st.objs[o] = st.objs[o][:3] + (fr.f.where(ins),)
        st.mem[o] = {'*': True, GH: (EMPTY, 4)}
        return [(st, ('p', o, 0))]
    def m_buffer_reset(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        s.setcell(st, p[1], EMPTY)
        return [(st, None)]
    def m_buffer_push(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'write')
        if p is None: return []
        m = st.mon; o = p[1]; c = s.cell(st, o)
        e = m['e']; pend = m.get('p')
        kind = KEY
        if e[0] == 'W' and e[1] in ('V', 'VX'): kind = VAL
        inname = (e[0] == 'A' and e[1] == 'NAME') or (e[0] == 'W' and isinstance(e[1], int))
        if inname: kind = NAME
        content = inname or (e[0] == 'W' and e[1] in ('Q', 'QX', 'V', 'VX'))
        if pend is not None and pend[0] == 'eq':
            s.check('W01', False, I, st, fr, ins, 'a valid key followed by = is not taken for a named argument'); m['p'] = None
        elif pend is not None and pend[0] == 'push':
            r = samebyte(st, pend[1], args[1])
            s.check('W02' if inname else 'W01', r, I, st, fr, ins, 'byte %s is stored as %s' % (T.show(pend[1]), T.show(args[1])))
            m['p'] = None
        elif content and e[0] == 'W':
            s.check('W01', False, I, st, fr, ins, 'a byte is stored although none is due')
        n = m.get('n', 0) if kind != VAL else m.get('nv', 0)
        if not content: new = OTHER
        elif n: new = kind if c == kind else OTHER
        else: new = kind if c == EMPTY else OTHER
        if content:
            m['nv' if kind == VAL else 'n'] = 1
            if e[0] == 'W': s.check('W01', new != OTHER, I, st, fr, ins, 'the buffer a byte is appended to holds something other than the bytes of this %s' % ('name' if inname else 'value' if kind == VAL else 'argument or key'))
        s.setcell(st, o, new)
        return [(st, None)]
    def m_buffer_extract(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        c = s.cell(st, p[1])
        o = I.newobj(st, 'heap', libc.site(fr, ins), None)
        st.objs[o] = st.objs[o][:3] + (fr.f.where(ins),)
        st.mem[o] = {'*': True, GH: (OTHER if c is None else c, 4)}
        return [(st, ('p', o, 0))]
    # --- what is handed over
    def handed(s, I, st, fr, ins, key):
        m = st.mon; e = m['e']
        body = e[0] == 'A' and e[1] in ('SP', 'U', 'UE', 'EX', 'END', 'Q', 'QE') or e[0] == 'W'
        s.check('W02', body, I, st, fr, ins, 'an argument or property is taken from a line that is not a message')
        if m.get(key) != 'old': m[key] = 'cur'
    def content(s, st, v, kind, n):
        """status of a string argument: exactly the bytes sent?"""
        if not is_ptr(v): return None
        c = s.cell(st, v[1])
        if c is None: return None
        return c == (kind if n else EMPTY)
    def m_list_append(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'write'); q = I.check_ptr(st, fr, ins, args[1], 'read')
        if p is None or q is None: return []
        m = st.mon; e = m['e']
        if p[1] != ARGS: return [(st, None)]
        s.handed(I, st, fr, ins, 'la')
        if e[0] == 'W':
            pend = m.get('p')
            ok = pend is not None and pend[0] == 'append'
            s.check('W01', ok, I, st, fr, ins, 'an argument is handed over although none has ended' if pend is None else 'a property is handed over as an argument' if pend[0] == 'set' else 'an argument is handed over before its last byte was stored')
            m['p'] = None
            if ok: s.check('W01', s.content(st, q, KEY, m.get('n', 0)), I, st, fr, ins, 'an argument is handed over with other bytes than were sent')
        return [(st, None)]
    def m_list_append_direct(s, I, st, fr, ins, args):
        r = s.m_list_append(I, st, fr, ins, args)
        if is_ptr(args[1]): I.escape_val(st, args[1])
        return r
    def m_trax_properties_set(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'write')
        if p is None: return []
        for k in (1, 2):
            if I.check_ptr(st, fr, ins, args[k], 'read') is None: return []
        m = st.mon; e = m['e']
        s.handed(I, st, fr, ins, 'pa')
        if e[0] == 'W':
            pend = m.get('p')
            ok = pend is not None and pend[0] == 'set'
            s.check('W01', ok, I, st, fr, ins, 'a property is stored although none has ended' if pend is None else 'an argument is handed over as a property')
            m['p'] = None
            if ok:
                s.check('W01', s.content(st, args[1], KEY, m.get('n', 0)), I, st, fr, ins, 'a property is stored under another key than was sent')
                s.check('W01', s.content(st, args[2], VAL, m.get('nv', 0)), I, st, fr, ins, 'a property is stored with another value than was sent')
        return [(st, None)]
    def m_list_reset(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'write') is None: return []
        st.mon['la'] = 0
        return [(st, None)]
    def m_trax_properties_clear(s, I, st, fr, ins, args):
        if I.check_ptr(st, fr, ins, args[0], 'write') is None: return []
        st.mon['pa'] = 0
        return [(st, None)]
    def m___is_valid_key(s, I, st, fr, ins, args):
        m = st.mon; e = m['e']; pend = m.get('p')
        # which text is tested: the buffer whose bytes were passed
        out = []
        for r in (0, 1):
            t = st.copy()
            if pend is not None and pend[0] == 'eq':
                if r: t.mon['e'] = ('W', 'V'); t.mon['p'] = None; t.mon['nv'] = 0; t.note('the text before = is a valid key')
                else: t.mon['p'] = ('push', 61); t.note('the text before = is not a valid key')
            out.append((t, r))
        return out
    def m___parse_message_type(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        m = st.mon; e = m['e']
        c = s.cell(st, p[1])
        if e[0] == 'W' or e[1] in ('NS', 'NN', 'NAME'):
            s.check('W02', None if c is None else c == (NAME if m.get('n', 0) else EMPTY), I, st, fr, ins, 'the message type is taken from other text than the name of this line')
        out = []
        if e[0] == 'W':
            m['ty'] = s.C['TRAX_HELLO']
            return [(st, s.C['TRAX_HELLO'])]
        for r, w in ((s.C['TRAX_FRAME'], 'a message name'), (-1, 'no message name')):
            if r != -1 and not m.get('n', 0): continue
            t = st.copy(); t.mon['ty'] = r; t.note('the name is %s' % w); out.append((t, r))
        return out
    # --- the log
    def on_call(s, I, st, fr, ins, name, args):
        if name is not None or s.mode == 'parser': return None
        cal = ins.d['callee']
        v = I.val(st, cal)
        if v == NULL:
            s.check('W07', False, I, st, fr, ins, 'the log callback is called although none is installed'); return []
        if not is_ptr(v) or len(args) != 3: return None
        if not s.logging:
            s.check('W07', False, I, st, fr, ins, 'the log callback is called although none is installed'); return []
        m = st.mon
        a = args[0]
        if a == NULL or a == 0:
            s.check('W07', m.get('lg') != 'due', I, st, fr, ins, 'the log is flushed before the byte read was logged')
            s.check('W07', not m.get('fl'), I, st, fr, ins, 'the log is flushed twice')
            m['fl'] = 1
            return [(st, None, 'ret')]
        if not is_ptr(a): return None
        n = args[1]
        lg = m.get('lg')
        s.check('W07', eq(st, n, 1) if is_num(n) else None, I, st, fr, ins, '%s bytes are logged for one byte read' % T.show(n))
        s.check('W07', lg == 'due', I, st, fr, ins, 'a byte is logged although none was read' if lg is None else 'a byte is logged twice')
        if lg == 'due':
            x = (st.mem.get(a[1]) or {}).get(a[2])
            b = (st.mem.get(('ext', 'byte')) or {}).get(0)
            if x and not b: s.check('W07', None, I, st, fr, ins, 'byte logged')
            if x and b: s.check('W07', samebyte(st, b[0], x[0]), I, st, fr, ins, 'the log is given another byte than was read')
        m['lg'] = 'done'
        return [(st, None, 'ret')]
    # --- the environment
    def settle(s, I, st, fr, ins, ret=False):
        """what must have happened with the byte before"""
        m = st.mon
        pend = m.get('p')
        if pend is not None:
            w = {'push': 'a byte of %s is lost' % ('the message name' if m['e'][0] == 'A' or isinstance(m['e'][1], int) else 'an argument or property'), 'eq': 'a = inside an argument is lost', 'append': 'an argument is not handed over', 'set': 'a property is not stored', 'lost': 'a byte is lost'}[pend[0]]
            s.check('W02' if m['e'][0] == 'A' else 'W01', False, I, st, fr, ins, w)
            m['p'] = None
        if s.logging and m.get('lg') is not None:
            s.check('W07', m['lg'] == 'done', I, st, fr, ins, 'a byte that was read is not logged')
        m['lg'] = None
    def poison(s, st):
        for o, mm in list(st.mem.items()):
            c = mm.get(GH)
            if c is not None and c[0] != EMPTY and st.objs.get(o, (0,))[0] == 'heap' and st.objs[o][1] == 16: s.setcell(st, o, OTHER)
    def m_read_character(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'read')
        if p is None: return []
        m = st.mon
        s.check('W03', not m.get('eof'), I, st, fr, ins, 'the stream is read again after its end was reported')
        if m.get('eof'): return []
        s.settle(I, st, fr, ins)
        s.check('W07', not m.get('fl'), I, st, fr, ins, 'the log is flushed in the middle of a message')
        e = m['e']
        s.states.add(e)
        # resolve the position in the line
        if e[0] == 'A':
            r = e[1]; ty = m.get('ty', -1)
            if r == 'NS': r = 'SP' if ty >= 0 else 'PASS'
            elif r == 'NN':
                s.check('W01', ty < 0, I, st, fr, ins, 'a complete message is not reported at the end of its line')
                if ty >= 0: return []
                r = 'P0'
            elif r == 'END':
                s.check('W01', False, I, st, fr, ins, 'a complete message is not reported at the end of its line'); return []
            elif r == 'MAL0': r = 'P0'
            elif r == 'MAL': r = 'PASS'
            if r == 'P7': s.poison(st); m['n'] = 0; r = 'NAME'
            if r[0] == 'P':
                for k in ('la', 'pa'):
                    if m.get(k) == 'cur': m[k] = 'old'
                m['ty'] = -1
            m['e'] = ('A', r)
        else:
            r = e[1]
            if r == 'E':
                s.check('W01', False, I, st, fr, ins, 'a complete message is not reported at the end of its line'); return []
            if r == 7: s.poison(st); m['n'] = 0
            if r == 'Q0': s.poison(st); m['n'] = 0; m['nv'] = 0; r = 'Q'
            m['e'] = ('W', r)
        e = m['e']; r = e[1]
        out = []
        def emit(b, ne, pend=None, base=None):
            t = (base or st).copy()
            if b.__class__ is tuple:
                v = I.fresh(t, ('byte', b), b[0], b[1]); d = '%d..%d' % b
            else: v = b; d = ch(b)
            t.mon['e'] = ne
            t.mem[('ext', 'byte')] = {0: (v, 4)}
            if pend == 'self': pend = ('push', v)
            t.mon['p'] = pend; t.mon['lg'] = 'due'
            t.note('%s: the peer sends %s' % (fr.f.where(ins), d))
            out.append((t, v))
        A = lambda x: ('A', x)
        W = lambda x: ('W', x)
        SPEC = (10, 13, 32, 34, 61, 64, 92)
        def rest(ne, but=(), **kw):
            for k in SPEC:
                if k not in but: emit(k, ne, **kw)
            for k in ALNUM + OTHERS: emit(k, ne, **kw)
        if e[0] == 'A':
            if r[0] == 'P' and r != 'PASS':
                i = int(r[1:])
                emit(PREFIX[i], A('P%d' % (i + 1)))
                emit(10, A('P0'))
                for k in (32, 34, 64, 84): 
                    if k != PREFIX[i]: emit(k, A('PASS'))
                emit((123, 127), A('PASS')); emit((128, 255), A('PASS')); emit((48, 57), A('PASS')); emit((0, 9), A('PASS'))
                if i == 0: emit(PREFIX[0], W(1))
            elif r == 'NAME':
                emit(32, A('NS')); emit(10, A('NN'))
                for k in ALNUM: emit(k, A('NAME'), pend='self')
                for k in (13, 34, 61, 64, 92): emit(k, A('MAL'))
                for k in OTHERS: emit(k, A('MAL'))
            elif r == 'SP':
                emit(32, A('SP')); emit(13, A('SP')); emit(10, A('END')); emit(34, A('Q')); rest(A('U'), (10, 13, 32, 34))
            elif r == 'U':
                emit(92, A('UE')); emit(10, A('END')); emit(32, A('SP')); rest(A('U'), (10, 32, 92))
            elif r == 'UE': emit(10, A('MAL0')); rest(A('U'), (10,)); emit(110, A('U'))
            elif r == 'Q': emit(92, A('QE')); emit(34, A('EX')); rest(A('Q'), (34, 92))
            elif r == 'QE': emit(10, A('MAL0')); rest(A('Q'), (10,)); emit(110, A('Q'))
            elif r == 'EX': emit(32, A('SP')); emit(10, A('END')); rest(A('MAL'), (10, 32))
            elif r == 'PASS': emit(10, A('P0')); rest(A('PASS'), (10,))
            else: raise AssertionError(r)
        else:
            M = s.MSG
            if isinstance(r, int):
                if r < len(M): emit(M[r], W(r + 1), pend='self' if r >= 7 else None)
                else: emit(32, W('I'))
            elif r == 'I':
                s.check('W01', m.get('ty') == s.C['TRAX_HELLO'], I, st, fr, ins, 'the name of a message is not recognised')
                emit(34, W('Q0')); emit(10, W('E'))
            elif r in ('Q', 'V'):
                for k in (13, 32, 110): emit(k, W(r), pend=('push', k))
                emit(64, W(r), pend=('push', 64))
                for k in ((1, 9), (11, 12), (14, 31), (33, 33), (35, 60), (62, 63), (65, 91), (93, 109), (111, 127), (128, 255)): emit(k, W(r), pend='self')
                emit(61, W(r), pend=('eq',) if r == 'Q' else ('push', 61))
                for k in (34, 92, 10): emit(92, W(r + 'X%d' % k))
                emit(34, W('C'), pend=('append',) if r == 'Q' else ('set',))
            elif isinstance(r, str) and r[1:2] == 'X':
                k = int(r[2:])
                emit({34: 34, 92: 92, 10: 110}[k], W(r[0]), pend=('push', k))
            elif r == 'C': emit(32, W('I'))
            else: raise AssertionError(r)
        # end of stream
        t = st.copy()
        t.mon['eof'] = 1; t.mon['p'] = None; t.mon['lg'] = None; t.mem[('ext', 'byte')] = {0: (0, 4)}
        t.note('%s: the stream ends' % fr.f.where(ins))
        out.append((t, -1))
        return out
    def on_back(s, I, st, fr, head):
        p = st.mon.get('p')
        if p is not None and p[0] == 'push': st.mon['p'] = ('lost',)
        st.mem.pop(('ext', 'byte'), None)
        # character variables are not tracked across iterations
        for o, mm in list(st.mem.items()):
            if o[0] == 'stack' and any(isinstance(x, tuple) and x[1] == 1 and is_int(x[0]) for x in mm.values()):
                st.mem[o] = dict((k, (I.fresh(st, ('chr', k), -128, 127), 1) if isinstance(x, tuple) and x[1] == 1 and is_int(x[0]) else x) for k, x in mm.items())
    def post(s, I, st, v, f):
        m = st.mon; e = m['e']
        class F: pass
        fr = F(); fr.f = f
        t = st.notes(1)
        where = t[-1][:-8] if t and isinstance(t[-1], str) and t[-1].endswith(': return') else f.where(f.blocks[0][0])
        c = lambda prop, ok, what: s.check(prop, ok, I, st, fr, None, what, where)
        if not m.get('eof'): 
            s.settle(I, st, fr, f.blocks[0][0], True)
        if s.logging: c('W07', bool(m.get('fl')), 'the log is not flushed at the end of a receive')
        err = eq(st, v, -1) if is_num(v) else None
        ty = m.get('ty', -1); r = e[1]; eof = m.get('eof')
        if e[0] == 'W': end = r == 'E'; inside = r in ('I', 'C')
        else: end = r == 'END' or (r == 'NN' and ty >= 0); inside = r in ('SP', 'U', 'UE', 'EX') or (r == 'NS' and ty >= 0) or r == 'NN' and ty >= 0
        if end: c('W01', eq(st, v, ty), 'a complete message of type %d is reported as %s' % (ty, T.show(v)))
        elif eof:
            if inside: c('W02', err is True or eq(st, v, ty), 'after the end of the stream something else than the last line is reported: %s' % T.show(v))
            else: c('W02', err, 'a message is reported although the stream ended %s' % ('inside a quoted argument' if r in ('Q', 'QE', 'V', 'Q0') or (isinstance(r, str) and 'X' in r and r != 'EX') else 'before one was read'))
        else:
            if err is True: c('W02', False, 'a receive gives up although the stream goes on')
            else: c('W02', False, 'a message is reported before its line has ended' if r not in ('P0', 'PASS', 'MAL', 'MAL0', 'NN') and not (r[0:1] == 'P') else 'a message is reported for a line that is none')
        if err is False:
            for k, w in (('la', 'arguments'), ('pa', 'properties')):
                c('W02', m.get(k) != 'old', 'a message is delivered with %s of a discarded one' % w)

NEED = ('read_message', 'read_character', 'buffer_push', 'buffer_reset', 'buffer_extract', 'list_append', 'list_reset', '__is_valid_key', '__parse_message_type', 'create_message_stream_file', 'trax_properties_set')
def reader(P, logging):
    missing = [n for n in NEED if not any(f.src == n and not f.decl for f in P.funcs.values())]
    if missing: return None, missing
    c = Reader(P, 'reader'); c.logging = logging
    c.entry = 'read_message'
    # the stream as it is created
    st = State()
    st.mon = {'e': ('A', 'P0')}
    I = Interp(P, c)
    f = P.funcs['create_message_stream_file']
    outs = I.call_function(f, st, [T.A(('sym', 'in', 0)), T.A(('sym', 'out', 0))], 'API', 0, ())
    work = [(s2, v) for s2, v, k in outs if k == 'ret' and is_ptr(v)]
    f = P.funcs['read_message']
    seen = []; n = 0; steps = 0
    stats = dict(returns=0, calls=0, incomplete=[])
    c.reports.clear()
    while work and n < 12:
        st, sv = work.pop(0); n += 1
        st.regs = {}; st.trace = None; st.tags = {}; st.roots = (frozenset([sv[1]]),)
        st.objs[ARGS] = ('ext', P.didx['string_list']['size'], 'ext', 'arguments')
        st.objs[PROPS] = ('ext', P.didx['trax_properties']['size'], 'ext', 'properties')
        st.objs[LOG] = ('ext', P.didx['trax_logging']['size'], 'ext', 'log')
        off, sz = P.field('trax_logging', 'callback')
        st.mem[LOG] = {}
        if logging:
            a = T.A(('init', LOG, off, 'ptr')); st.mem[LOG][off] = (('p', ('D', a), 0), 8); assume_ne(st, a, 0)
        else: st.mem[LOG][off] = (NULL, 8)
        for o in [o for o in st.mem if o[0] == 'ext' and o not in (LOG,)]: st.mem.pop(o)
        st.mem[('ext', 'byte')] = {0: (0, 4)}
        st.mon = {'e': ('A', 'P0'), 'ty': -1, 'la': 0, 'pa': 0}
        I = Interp(P, c)
        try: outs = I.call_function(f, st, [sv, ('p', LOG, 0), ('p', ARGS, 0), ('p', PROPS, 0)], 'API', 0, ())
        except Budget:
            stats['incomplete'].append('step budget exhausted'); break
        steps += I.nsteps; stats['calls'] += 1
        stats['incomplete'] += I.incomplete
        for s2, v, kind in outs:
            if kind != 'ret': continue
            stats['returns'] += 1
            c.post(I, s2, v if v is not None else 0, f)
            # the stream as the next call finds it
            key = tuple(sorted(((o, k, x if is_int(x) else None) for o, mm in s2.mem.items() if o[0] == 'heap' for k, xx in mm.items() if isinstance(xx, tuple) for x in (xx[0],)), key=repr))
            if key not in seen:
                seen.append(key); work.append((s2, sv))
    if work: stats['incomplete'].append('more stream states than explored')
    stats['steps'] = steps; stats['stream_states'] = len(seen)
    return c, stats

if __name__ == '__main__':
    import time, sys
    t = time.time()
    P = ir.Program(build.dump('core'))
    for lg in (True, False):
        c, stats = reader(P, lg)
        print(lg, stats, '%.1f' % (time.time() - t))
        if c:
            print(c.obligations, len(c.states))
            for k, r in c.viol.items(): print(k[0], r.where, r.what); print('     ' + '\n     '.join(str(x)[:100] for x in r.trace[-8:]))
            for k, r in list(c.reports.items())[:5]: print('R', r.kind, r.where, r.what)
            for k, w in list(c.unproved.items())[:10]: print(' ?', k, w)
