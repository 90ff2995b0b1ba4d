"""W04: the names writer and reader use.  The coding functions are interpreted abstractly with the text they examine
partitioned by the outcomes of its comparisons with constant strings; what comes out is a finite table from names to
values, which is compared with the table the encoding side produces."""
import build, ir, core, absint, libc, wire, wireout
import terms as T
from terms import *
from absint import Interp, State, Budget, UNDEF, NULL, eq, le, refine, assume_eq, assume_ne, bounds
from core import Base, Report, show_trace
from result import Result, Violation

TEXT = ('ext', 'text'); OUT = ('ext', 'output'); IMG = ('ext', 'image'); DATA = ('ext', 'image data')
OTHER = '(other)'

class Names(wire.Wire):
    part_limit = 40
    max_states = 4000
    max_heads = 400
    steps = 600000
    def __init__(s, P, entry):
        wire.Wire.__init__(s, P, 'names'); s.entry = entry
        for n in ('strcmp', 'strcasecmp', 'strncmp', 'strncasecmp'): s.models[n] = s.cmp
        s.models['sprintf'] = s.models['snprintf'] = s.fmt
        for n in [k for k, f in P.funcs.items() if f.src == 'buffer_append' and not f.decl]: s.models[n] = s.append
        s.models['strcat'] = s.cat; s.models['strcpy'] = s.cpy
        s.toks = 2
        s.models['strtok_r'] = s.tok; s.models['strtok'] = s.tok
    # ---- reading: which text is examined, and what is known about it
    def subject(s, p):
        if not is_ptr(p): return None
        if p[1] == TEXT: return ('text', 0) if p[2] == 0 else ('text', 'rest')
        if p[1][0] == 'ext' and p[1][1] == 'token': return ('token', p[1][2])
        if p[1][0] in ('heap', 'stack') and p[2] == 0: return ('obj', p[1])
        return None
    def tok(s, I, st, fr, ins, args):
        m = st.mon; k = m.get('tk', 0)
        out = []
        t = st.copy(); t.mon['tk'] = 99; out.append((t, NULL))
        if k < s.toks:
            o = ('ext', 'token', k)
            t = st.copy(); t.mon['tk'] = k + 1; t.objs[o] = ('ext', None, 'ext', 'token')
            v = libc.strlen_term(I, t, ('p', o, 0))
            if is_num(v) and not is_int(v): refine(t, single_atom(v), 1, 1 << 30)
            out.append((t, ('p', o, 0)))
        return out
    def cmp(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]
        a, b = args[0], args[1]
        x, y = libc.cstr(I, st, a), libc.cstr(I, st, b)
        if x is not None and y is not None: return libc.m_strcmp(I, st, fr, ins, args)
        if x is not None: a, b, x, y = b, a, y, x
        sj = s.subject(a)
        if y is None and x is None and sj is not None: st.mon['unknown'] = True
        if y is None or sj is None: return libc.m_strcmp(I, st, fr, ins, args)
        lit = y.decode('latin1'); pre = False
        if nm in ('strncmp', 'strncasecmp'):
            n = args[2]
            if not is_int(n): return libc.m_strcmp(I, st, fr, ins, args)
            if n <= len(lit): lit = lit[:n]; pre = True
        ic = 'case' in nm
        if ic: lit = lit.lower()
        key = ('s', sj); cur = st.mon.get(key, ('not', frozenset()))
        item = (lit, pre, ic)
        def match(known):      # known exact text compared with this literal
            return known[0] == lit and not known[1] or (pre and known[0].startswith(lit))
        if cur[0] == 'is':
            if cur[1][1] and not pre: pass
            elif match(cur[1]): return [(st, 0)]
            else: return [(st, 1)]
        elif item in cur[1]: return [(st, 1)]
        out = []
        t = st.copy(); t.mon[key] = ('is', item); t.note('%s: the name is %r%s' % (fr.f.where(ins), lit, ' and whatever follows' if pre else '')); out.append((t, 0))
        t = st.copy(); t.mon[key] = ('not', cur[1] | {item}) if cur[0] == 'not' else cur; out.append((t, 1))
        return out
    # ---- writing: the text that is produced, with %s arguments that are constants filled in
    def render(s, I, st, f, args):
        t = libc.cstr(I, st, f)
        if t is None: return None
        t = t.decode('latin1'); out = ''; i = 0; k = 0
        while i < len(t):
            if t[i] == '%' and i + 1 < len(t):
                j = i + 1
                while j < len(t) and t[j] in '0123456789.-+ #l': j += 1
                c = t[j]
                if c == '%': out += '%'
                elif c == 's':
                    x = libc.cstr(I, st, args[k]) if k < len(args) else None
                    out += x.decode('latin1') if x is not None else '<%s>' % ('NULL' if k < len(args) and args[k] == NULL else '?'); k += 1
                else: out += '<%s>' % c; k += 1
                i = j + 1
            else: out += t[i]; i += 1
        return out
    def put(s, st, o, at, txt, fr, ins, I):
        """text written at position 'at' of the output; ghost: text so far"""
        cur = st.mon.get(('o', o), '')
        st.mon[('o', o)] = (cur + txt) if at != 'start' else txt
    def fmt(s, I, st, fr, ins, args):
        nm = ins.d['callee'][1]; k = 1 if nm == 'sprintf' else 2
        if nm == 'snprintf' and args[1] == 0: return [(st, I.fresh(st, (fr.uid, ins.id, 'ret'), 0, 1 << 30))]
        d = I.check_ptr(st, fr, ins, args[0], 'write')
        if d is None: return []
        r = s.render(I, st, args[k], args[k + 1:])
        if r is None or not is_ptr(d):
            st.mon[('o', d[1] if is_ptr(d) else None)] = None
            return [(st, I.fresh(st, (fr.uid, ins.id, 'ret'), 0, 1 << 30))]
        cur = st.mon.get(('o', d[1]), '')
        if cur is not None:
            if d[2] == 0 and not cur: st.mon[('o', d[1])] = r
            elif d[2] == len(cur): st.mon[('o', d[1])] = cur + r
            elif is_int(d[2]): st.mon[('o', d[1])] = cur[:d[2]] + r; 
            elif '<' in cur: st.mon[('o', d[1])] = cur + r
            else: st.mon[('o', d[1])] = None
        mm = dict(st.mem.get(d[1]) or {}); mm['*'] = True; st.mem[d[1]] = mm
        n = len(r) if '<' not in r else I.fresh(st, (fr.uid, ins.id, 'ret'), 0, 1 << 30)
        return [(st, n)]
    def cat(s, I, st, fr, ins, args):
        d, t = args[0], libc.cstr(I, st, args[1])
        if is_ptr(d): 
            cur = st.mon.get(('o', d[1]), '')
            st.mon[('o', d[1])] = None if cur is None or t is None else cur + t.decode('latin1')
        return [(st, d)]
    def cpy(s, I, st, fr, ins, args):
        d, t = args[0], libc.cstr(I, st, args[1])
        if is_ptr(d): st.mon[('o', d[1])] = t.decode('latin1') if t is not None and d[2] == 0 else None
        return [(st, d)]
    def append(s, I, st, fr, ins, args):
        p = I.check_ptr(st, fr, ins, args[0], 'write')
        if p is None: return []
        r = s.render(I, st, args[1], args[2:])
        L = st.mon.get(('a', p[1]), ())
        if L is not None: st.mon[('a', p[1])] = None if r is None else L + (r,) if len(L) < 4 else L
        m = dict(st.mem.get(p[1]) or {})
        off = s.prog.field('string_buffer', 'position')[0]
        m[off] = (I.fresh(st, (fr.uid, ins.id, 'pos'), 1, 1 << 30), 4); st.mem[p[1]] = m
        return [(st, None)]
    def go(s, fname, st, args):
        I = Interp(s.prog, s)
        fn = [n for n, f in s.prog.funcs.items() if f.src == fname and not f.decl]
        try: outs = I.call_function(s.prog.funcs[fn[0]], st, args, 'API', 0, ())
        except Budget: return I, None
        if any(s2.mon.get('unknown') for s2, v, k in outs): return I, None       # compared with text that is not constant
        return I, [(s2, v) for s2, v, k in outs if k == 'ret']
    def where(s, fname):
        f = [f for n, f in s.prog.funcs.items() if f.src == fname and not f.decl][0]
        for b in f.blocks:
            for i in f.blocks[b] if isinstance(f.blocks, dict) else b:
                w = f.where(i)
                if not w.endswith('?'): return w
        return f.where(f.blocks[0][0])

def have(P, *names): return [n for n in names if not any(f.src == n and not f.decl for f in P.funcs.values())]
def base_state():
    st = State(); st.objs[TEXT] = ('ext', None, 'ext', 'text'); st.objs[OUT] = ('ext', None, 'ext', 'output')
    st.roots = (frozenset([TEXT, OUT, IMG, DATA]),); st.mon = {}
    return st

def lists(P, r):
    """comma lists of kinds: *_decode and *_encode"""
    C = core.consts()
    for what, dec, enc, bits in (('image kind', 'image_formats_decode', 'image_formats_encode', [C[k] for k in ('TRAX_IMAGE_PATH', 'TRAX_IMAGE_URL', 'TRAX_IMAGE_MEMORY', 'TRAX_IMAGE_BUFFER')]),
                                 ('region kind', 'region_formats_decode', 'region_formats_encode', [C[k] for k in ('TRAX_REGION_RECTANGLE', 'TRAX_REGION_POLYGON', 'TRAX_REGION_MASK')]),
                                 ('channel', 'channels_decode', 'channels_encode', [C[k] for k in ('TRAX_CHANNEL_COLOR', 'TRAX_CHANNEL_DEPTH', 'TRAX_CHANNEL_IR')])):
        miss = have(P, dec, enc)
        if miss: r.inconclusive.append('%s names: %s does not exist' % (what, ', '.join(miss))); continue
        # reading
        c = Names(P, dec)
        I, outs = c.go(dec, base_state(), [('p', TEXT, 0)])
        if outs is None: r.inconclusive.append('%s: analysis did not finish' % dec); continue
        table = {}; pairs = []
        for s2, v in outs:
            toks = [s2.mon.get(('s', ('token', k))) for k in range(2)]
            n = s2.mon.get('tk', 0)
            used = [t for t in toks if t is not None]
            if not is_int(v): r.inconclusive.append('%s: result %s' % (dec, T.show(v))); continue
            if not used: continue
            if len(used) == 1:
                t = used[0]
                if t[0] == 'is':
                    if t[1][1]: r.ob(v < 0, c.where(dec), dec, 'every name beginning with %r is taken for the %s %d' % (t[1][0], what, v), s2.notes(6) and show_trace(s2.notes(6)))
                    elif s2.mon['tk'] == 99: table[t[1][0]] = v
                else: r.ob(v < 0, c.where(dec), dec, 'an unknown %s name is accepted (as %d)' % (what, v), show_trace(s2.notes(6)))
            elif all(t[0] == 'is' and not t[1][1] for t in used): pairs.append((used, v))
            else: r.ob(v < 0, c.where(dec), dec, 'an unknown %s name is accepted behind a known one (as %d)' % (what, v), show_trace(s2.notes(6)))
        for used, v in pairs:
            names = [t[1][0] for t in used]
            if all(n in table for n in names):
                w = 0
                for n in names: w |= table[n]
                r.ob(v == w, c.where(dec), dec, 'the list %s is read as %d, its members as %s' % (';'.join(names), v, ', '.join(str(table[n]) for n in names)))
        if not table: r.inconclusive.append('%s: no comparison with a constant name was recognised' % dec); continue
        # writing
        full = 0
        for b in bits: full |= b
        written = {}
        ok = True
        sub = 0
        subsets = []
        x = full
        while True:
            subsets.append(x)
            if x == 0: break
            x = (x - 1) & full
        for sset in sorted(subsets):
            e = Names(P, enc)
            I, outs = e.go(enc, base_state(), [sset, ('p', OUT, 0)])
            if outs is None: r.inconclusive.append('%s(%d): analysis did not finish' % (enc, sset)); ok = False; continue
            for s2, v in outs:
                t = s2.mon.get(('o', OUT), '')
                if t is None or '<' in t: r.inconclusive.append('%s(%d): text %s' % (enc, sset, t)); ok = False; continue
                names = [n for n in t.split(';') if n]
                val = 0; good = True
                for n in names:
                    if n not in table: r.ob(False, e.where(enc), enc, 'the %s name %r that is written is not known to the reader' % (what, n)); good = False
                    else: val |= table[n]
                if good: r.ob(val == sset, e.where(enc), enc, 'the set %d of %ss is written as %r, which is read as %d' % (sset, what, t, val))
        for b in bits: r.ob(b in table.values(), c.where(dec), dec, 'no name is read as the %s %d' % (what, b))
        for n, v in table.items():
            r.ob(v in bits, c.where(dec), dec, 'the name %r is read as %d, which is no single %s' % (n, v, what))
        r.coverage[what + ' names'] = table

def messages(P, r):
    miss = have(P, '__parse_message_type')
    if miss: r.inconclusive.append('message names: __parse_message_type does not exist'); return
    C = core.consts()
    c = Names(P, '__parse_message_type')
    I, outs = c.go('__parse_message_type', base_state(), [('p', TEXT, 0)])
    if outs is None: r.inconclusive.append('__parse_message_type: analysis did not finish'); return
    table = {}
    w = c.where('__parse_message_type')
    for s2, v in outs:
        t = s2.mon.get(('s', ('text', 0)), ('not', ()))
        if not is_int(v): r.inconclusive.append('__parse_message_type: result %s' % T.show(v)); continue
        if t[0] == 'is':
            if t[1][1]: r.ob(v < 0, w, '__parse_message_type', 'every name beginning with %r is taken for a message of type %d' % (t[1][0], v), show_trace(s2.notes(6)))
            else: table[t[1][0]] = v
        else: r.ob(v < 0, w, '__parse_message_type', 'an unknown message name is taken for type %d' % v, show_trace(s2.notes(6)))
    if not table: r.inconclusive.append('__parse_message_type: no comparison with a constant name was recognised'); return
    names = {}
    m, stats = wireout.message(P)
    if m is None: r.inconclusive.append('message writer: %s' % ', '.join(stats)); return
    for ty, ns in sorted(m.written.items()):
        for n in ns:
            names.setdefault(n.lower(), set()).add(ty)
            if n.lower() not in table: r.ob(False, w, '__parse_message_type', 'the name %r that is written for %s is not known to the reader' % (n, ty))
            else: r.ob(table[n.lower()] == C[ty], w, '__parse_message_type', 'the name %r that is written for %s is read as type %d' % (n, ty, table[n.lower()]))
    for n, tys in names.items(): r.ob(len(tys) == 1, m.prog.funcs['write_message'].where(m.prog.funcs['write_message'].blocks[0][0]), 'write_message', 'the name %r is written for %s' % (n, ' and '.join(sorted(tys))))
    for ty in wireout.NAMES: r.ob(bool(m.written.get(ty)) or None, w, 'write_message', 'no name is written for %s' % ty)
    r.coverage['message names'] = table

def images(P, r):
    C = core.consts()
    miss = have(P, 'image_encode', 'image_decode')
    if miss: r.inconclusive.append('image formats: %s does not exist' % ', '.join(miss)); return
    g = lambda n: P.field('trax_image', n)
    kinds = {'TRAX_IMAGE_PATH': [None], 'TRAX_IMAGE_URL': [None], 'TRAX_IMAGE_MEMORY': [k for k in C if k.startswith('TRAX_IMAGE_MEMORY_') and not k.endswith('ILLEGAL')],
             'TRAX_IMAGE_BUFFER': [k for k in C if k.startswith('TRAX_IMAGE_BUFFER_') and not k.endswith('ILLEGAL')]}
    heads = {}
    for k, fs in kinds.items():
        for f in fs:
            c = Names(P, 'image_encode')
            c.models['base64encode'] = lambda I, st, fr, ins, args: [(st, I.fresh(st, (fr.uid, ins.id, 'enc'), 1, 1 << 30))]
            c.models['base64encodelen'] = lambda I, st, fr, ins, args: [(st, I.fresh(st, (fr.uid, ins.id, 'encl'), 1, 1 << 30))]
            c.models['memcpy'] = c.memcpy = lambda I, st, fr, ins, args: [(st, args[0])]
            st = base_state()
            st.objs[IMG] = ('ext', P.didx['trax_image']['size'], 'ext', 'image'); st.objs[DATA] = ('ext', None, 'ext', 'image data')
            st.mem[IMG] = {g('type')[0]: (C[k], 2 if g('type')[1] == 2 else 4), g('data')[0]: (('p', DATA, 0), 8)}
            if g('type')[1] != 4: st.mem[IMG][g('type')[0]] = (C[k], g('type')[1])
            if f: st.mem[IMG][g('format')[0]] = (C[f], g('format')[1])
            I, outs = c.go('image_encode', st, [('p', IMG, 0)])
            if outs is None: r.inconclusive.append('image_encode: analysis did not finish'); continue
            for key, rep in c.reports.items():
                if rep.kind == 'assert': r.ob(False, rep.where, 'image_encode', 'there is no name for the format %s' % f, rep.trace)
            for s2, v in outs:
                t = None
                if is_ptr(v): t = s2.mon.get(('o', v[1]), '')
                if v == NULL: r.ob(False, c.where('image_encode'), 'image_encode', 'an image of kind %s %s has no text' % (k, f or '')); continue
                if t is None: r.inconclusive.append('image_encode: text of %s %s' % (k, f or '')); continue
                heads.setdefault((k, f), set()).add(t)
    # reading
    c = Names(P, 'image_decode')
    for n in ('parse_uri', 'strntok'):
        for kk in [kk for kk, f in P.funcs.items() if f.src == n and not f.decl]: c.models[kk] = getattr(ImageModels, n)
    if have(P, 'parse_uri', 'strntok'): r.inconclusive.append('image_decode: %s does not exist' % ', '.join(have(P, 'parse_uri', 'strntok'))); return
    c.models['base64decode'] = lambda I, st, fr, ins, args: [(st, I.fresh(st, (fr.uid, ins.id, 'dec'), 0, 1 << 30))]
    c.models['base64decodelen'] = lambda I, st, fr, ins, args: [(st, I.fresh(st, (fr.uid, ins.id, 'decl'), 1, 1 << 30))]
    c.models['strtol'] = ImageModels.strtol
    I, outs = c.go('image_decode', base_state(), [('p', TEXT, 0)])
    if outs is None: r.inconclusive.append('image_decode: analysis did not finish'); return
    w = c.where('image_decode')
    schemes = {}; formats = {}
    for s2, v in outs:
        if v == NULL or not is_ptr(v): continue
        ty = (s2.mem.get(v[1]) or {}).get(g('type')[0]); fm = (s2.mem.get(v[1]) or {}).get(g('format')[0])
        if not ty or not is_int(ty[0]): r.inconclusive.append('image_decode: kind of a result'); continue
        ty = ty[0]
        sc = s2.mon.get(('s', ('text', 0)), ('not', frozenset()))
        if s2.mon.get('uri') != 1: sc = ('none',)
        if sc[0] == 'is' and sc[1][1]: r.ob(False, w, 'image_decode', 'every scheme beginning with %r is taken for an image of kind %d' % (sc[1][0], ty))
        s_ = sc[1][0] if sc[0] == 'is' else OTHER if sc[0] == 'not' else ''
        schemes.setdefault(s_, set()).add(ty)
        ft = s2.mon.get(('s', ('text', 'rest')))
        if ft is not None:
            if ft[0] == 'is':
                if ft[1][1]: r.ob(False, w, 'image_decode', 'every format beginning with %r is accepted' % ft[1][0])
                elif fm and is_int(fm[0]): formats.setdefault((ty, ft[1][0]), set()).add(fm[0])
                else: r.inconclusive.append('image_decode: format of %r' % ft[1][0])
            else: r.ob(False, w, 'image_decode', 'an image with an unknown %s format name is accepted (as format %s)' % ('pixel' if ty == C['TRAX_IMAGE_MEMORY'] else 'compression', T.show(fm[0]) if fm else '?'), show_trace(s2.notes(8)))
        elif ty in (C['TRAX_IMAGE_MEMORY'], C['TRAX_IMAGE_BUFFER']): r.inconclusive.append('image_decode: format of an image of kind %d' % ty)
    if set(schemes) <= {OTHER, ''}: r.inconclusive.append('image_decode: no comparison of the scheme with a constant name was recognised'); return
    for (k, f), ts in sorted(heads.items(), key=repr):
        for t in ts:
            sc, colon, rest = t.partition(':')
            if k == 'TRAX_IMAGE_URL': r.ob(t == '', w, 'image_encode', 'a URL image is written with %r in front' % t); continue
            if not colon: r.ob(False, c.where('image_encode'), 'image_encode', 'an image of kind %s is written without a scheme' % k); continue
            got = schemes.get(sc, schemes.get(OTHER, set()))
            r.ob(got == {C[k]}, w, 'image_decode', 'the scheme %r, which is written for %s, is read as kind %s' % (sc, k, sorted(got)))
            if f:
                nm = [x for x in rest.split(';') if x and '<d' not in x]
                if len(nm) != 1 or not rest.endswith(';'): r.ob(None, w, 'image_encode', 'format name in %r' % t); continue
                if '<' in nm[0]: r.ob(False, c.where('image_encode'), 'image_encode', 'there is no name for the format %s' % f); continue
                if not any(t2 == C[k] for t2, _ in formats): r.inconclusive.append('image_decode: no %s format name was recognised' % k); continue
                got = formats.get((C[k], nm[0].lower()), formats.get((C[k], nm[0]), set()))
                r.ob(got == {C[f]}, w, 'image_decode', 'the name %r, which is written for %s, is read as format %s' % (nm[0], f, sorted(got)))
    r.ob(schemes.get(OTHER, {C['TRAX_IMAGE_URL']}) == {C['TRAX_IMAGE_URL']}, w, 'image_decode', 'an unknown scheme is not read as a URL')
    r.coverage['image schemes'] = {k: sorted(v) for k, v in schemes.items()}
    r.coverage['image formats'] = {'%d %s' % k: sorted(v) for k, v in formats.items()}

class ImageModels(object):
    def parse_uri(I, st, fr, ins, args):
        a = st.copy(); a.mon['uri'] = 0; a.note('the text has no scheme')
        b = st.copy(); b.mon['uri'] = 1; b.note('the text has a scheme')
        n = I.fresh(b, (fr.uid, ins.id, 'colon'), 1, 16)
        return [(a, NULL), (b, ('p', TEXT, n))]
    parse_uri = staticmethod(parse_uri)
    def strntok(I, st, fr, ins, args):
        p = args[0]
        o = ('ext', 'token', 0)
        # the token is what the caller passed: comparisons are made with its start
        a = st.copy()
        out = [(a, NULL)]
        b = st.copy()
        b.mon['token'] = p
        q = I.fresh(b, (fr.uid, ins.id, 'next'), 1, 1 << 20)
        out.append((b, ('p', ('ext', 'payload'), 0)))
        return out
    strntok = staticmethod(strntok)
    def strtol(I, st, fr, ins, args):
        p = args[0]
        v = I.fresh(st, (fr.uid, ins.id, 'number'), -(1 << 31), (1 << 31) - 1)
        if is_ptr(args[1]) and is_ptr(p):
            q = ('p', p[1], add(p[2], I.fresh(st, (fr.uid, ins.id, 'end'), 0, 20)))
            m = dict(st.mem.get(args[1][1]) or {}); m[args[1][2]] = (q, 8); st.mem[args[1][1]] = m
        return [(st, v)]
    strtol = staticmethod(strtol)

class ImageNames(Names): pass

def regions(P, r):
    C = core.consts()
    miss = have(P, '__parse_uri_prefix')
    if miss: r.inconclusive.append('region prefixes: __parse_uri_prefix does not exist'); return
    kinds = {k: P.enum_value(k) for k in ('EMPTY', 'SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK')}
    c = Names(P, '__parse_uri_prefix')
    st = base_state()
    I, outs = c.go('__parse_uri_prefix', st, [('p', TEXT, 0), ('p', OUT, 0)])
    if outs is None: r.inconclusive.append('__parse_uri_prefix: analysis did not finish'); return
    w = c.where('__parse_uri_prefix')
    table = {}
    for s2, v in outs:
        ty = (s2.mem.get(OUT) or {}).get(0)
        if not ty or not is_int(ty[0]): r.inconclusive.append('__parse_uri_prefix: kind'); continue
        ty = ty[0]
        # position of the colon
        col = None
        for k in range(40):
            a = single_atom(T.A(('init', TEXT, k, 'i8')))
            i = s2.info.get(a)
            if i and i[0] == i[1] == 58: col = k; break
        t = s2.mon.get(('s', ('text', 0)), ('not', frozenset()))
        bytewise = ''
        for k in range(col or 0):
            i = s2.info.get(single_atom(T.A(('init', TEXT, k, 'i8'))))
            if i and i[0] == i[1] and 0 < i[0] < 256: bytewise += chr(i[0])
            else: break
        if ty != kinds['EMPTY'] and col and len(bytewise) == col: table[bytewise] = ty; continue
        if t[0] == 'not' and not t[1] and ty != kinds['EMPTY']: r.inconclusive.append('__parse_uri_prefix: how kind %d is recognised' % ty); continue
        if t[0] == 'is' and not t[1][1]: r.inconclusive.append('__parse_uri_prefix: comparison of the whole text'); continue
        if t[0] == 'is' and col == len(t[1][0]): table[t[1][0]] = ty
        elif ty != kinds['EMPTY']:
            r.ob(False, w, '__parse_uri_prefix', 'a text that only begins with %r is taken for the region prefix of kind %d' % (t[1][0], ty) if t[0] == 'is' else 'an unknown prefix is taken for kind %d' % ty, show_trace(s2.notes(8)))
        elif t[0] == 'not': r.ob(True, w, '', '')
    if not table: r.inconclusive.append('__parse_uri_prefix: no comparison with a constant name was recognised'); return
    r.ob(len(set(v for v in table.values() if v)) == len([v for v in table.values() if v]), w, '__parse_uri_prefix', 'two prefixes mean the same region kind: %s' % table)
    for k in table:
        want = {'rect': 'RECTANGLE', 'poly': 'POLYGON', 'mask': 'MASK', 'special': 'SPECIAL'}.get(k)
        if want: r.ob(table[k] == kinds[want], w, '__parse_uri_prefix', 'the prefix %r is read as kind %d' % (k, table[k]))
    # what is written
    if not have(P, 'region_string'):
        for kind in ('RECTANGLE', 'POLYGON', 'MASK', 'SPECIAL'):
            e = Names(P, 'region_string')
            st = base_state()
            R = ('ext', 'region')
            st.objs[R] = ('ext', P.didx['region_container']['size'], 'ext', 'region'); st.roots = (frozenset([TEXT, OUT, R]),)
            st.mem[R] = {P.field('region_container', 'type')[0]: (kinds[kind], P.field('region_container', 'type')[1])}
            I, outs = e.go('region_string', st, [('p', R, 0)])
            if outs is None: r.inconclusive.append('region_string: analysis did not finish'); continue
            firsts = set()
            for s2, v in outs:
                L = [x for k, x in s2.mon.items() if k[0] == 'a']
                if L and L[0]: firsts.add(L[0][0])
                elif L and L[0] is None: r.inconclusive.append('region_string: text of kind %s' % kind)
            for t in firsts:
                pre, colon, rest = t.partition(':')
                if colon:
                    r.ob(table.get(pre) == kinds[kind], e.where('region_string'), 'region_string', 'a region of kind %s is written with the prefix %r, which is read as %s' % (kind, pre, table.get(pre)))
                else:
                    n = len(t.split(','))
                    # without a prefix the number of values decides
                    want = {'SPECIAL': n == 1, 'RECTANGLE': n == 4, 'POLYGON': n == 2, 'MASK': False}[kind]
                    r.ob(want, e.where('region_string'), 'region_string', 'a region of kind %s is written as %r, which is read as another kind' % (kind, t))
    r.coverage['region prefixes'] = table

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('The functions that turn names into values are interpreted abstractly with the text partitioned by its comparisons against constant strings; the functions that turn values into names are interpreted for every value and every subset of the finite format sets. Rule: the two tables are inverse, names are unique and compared in full, and text that equals no name is refused.')
    for f in (lists, messages, images, regions):
        try: f(P, r)
        except (IndexError, KeyError, TypeError, AttributeError) as e:
            if __import__('os').environ.get('TRAX_DEBUG_CHECK'): raise
            r.inconclusive.append('%s: %r' % (f.__name__, e))
    r.sample({k: v for k, v in r.coverage.items()})
    return r
if __name__ == '__main__':
    r = run('W04', 'quick')
    print(r.coverage); print(r.obligations, r.discharged)
    for v in r.violations: print(v.text())
    for i in r.inconclusive: print('?', i)
