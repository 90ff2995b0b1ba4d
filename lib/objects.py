"""M01, M02 for the objects a caller makes and releases: images, regions, object lists, image lists, metadata.  Each
history (create, use, release) is interpreted abstractly from the public functions down; the only inputs left open are
the numbers and the contents.  Two objects the caller owns may be the same one where the interface allows it."""
import os, sys, time, multiprocessing
import build, ir, core, absint, libc
import terms as T
from terms import *
from core import Base, show_trace, consts
from absint import Interp, State, Budget, UNDEF, NULL, refine, assume_ne

HELD = ('ext', 'held by the caller'); OUTV = ('ext', 'results'); TXT = ('ext', 'text'); DATA = ('ext', 'data')

class Life(Base):
    part_limit = 12; max_states = 400; max_heads = 200; steps = 250000
    def __init__(s, P, entry):
        Base.__init__(s); s.prog = P; s.entry = entry; s.models = dict(s.models)
        for n in ('floor', 'ceil', 'round', 'trunc', 'floorf', 'ceilf', 'roundf', 'truncf', 'fabs', 'fabsf', 'sqrt', 'sqrtf'): s.models[n] = s.number
        for n in ('buffer_create', 'buffer_append', 'buffer_size', 'buffer_extract', 'buffer_destroy'):
            if [f for f in P.bysrc.get(n, []) if not f.decl]: s.models[n] = getattr(s, 'm_' + n)
        for n in ('base64decodelen', 'base64decode'):
            if [f for f in P.bysrc.get(n, []) if not f.decl]: s.models[n] = getattr(s, 'm_' + n)
    def number(s, I, st, fr, ins, a): return [(st, T.A(('fop', ins.d['callee'][1], a[0])))]
    # Base64 (D03): the decoder stores as many bytes as the length function says, the final zero included
    def declen(s, I, st, p):
        a = T.A(('declen', p[1], p[2]) if is_ptr(p) else ('declen', p)); refine(st, single_atom(a), 1, (1 << 31) - 1)
        return a
    def m_base64decodelen(s, I, st, fr, ins, a):
        p = I.check_ptr(st, fr, ins, a[0], 'read')
        return [] if p is None else [(st, s.declen(I, st, p))]
    def m_base64decode(s, I, st, fr, ins, a):
        p = I.check_ptr(st, fr, ins, a[1], 'read'); q = I.check_ptr(st, fr, ins, a[0], 'write')
        if p is None or q is None: return []
        n = s.declen(I, st, p)
        s.on_access(I, st, fr, ins, q, n, 'write')
        st.mem[q[1]] = {'*': True}
        return [(st, sub(n, 1))]
    # texts under construction: one block the caller of buffer_create owns (M03)
    def m_buffer_create(s, I, st, fr, ins, a):
        return [(st, ('p', I.newobj(st, 'heap', ('buffer',) + libc.site(fr, ins), None), 0))]
    def m_buffer_append(s, I, st, fr, ins, a): return [(st, 1)] if I.check_ptr(st, fr, ins, a[0], 'read') is not None else []
    def m_buffer_size(s, I, st, fr, ins, a): return [(st, I.fresh(st, (fr.uid, ins.id, 'n'), 0, 1 << 20))] if I.check_ptr(st, fr, ins, a[0], 'read') is not None else []
    def m_buffer_extract(s, I, st, fr, ins, a):
        if I.check_ptr(st, fr, ins, a[0], 'read') is None: return []
        o = I.newobj(st, 'heap', ('text',) + libc.site(fr, ins), None)
        st.mem[o] = {'*': True}
        return [(st, ('p', o, 0))]
    def m_buffer_destroy(s, I, st, fr, ins, a):
        p = I.check_ptr(st, fr, ins, a[0], 'write')
        if p is None: return []
        q = I.load(st, fr, ins, p, 'ptr', 8)
        if q is not None and is_ptr(q):
            if I.obj_status(st, q[1]) == 'freed': s.on_freed(I, st, fr, ins, q, 'free'); return []
            if q[1] in st.objs: st.objs[q[1]] = st.objs[q[1]][:2] + ('freed', fr.f.where(ins)); st.mem.pop(q[1], None)
        I.setmem(st, p[1], p[2], NULL, 8)
        return [(st, None)]

INTERNAL = ('image_encode', 'image_decode')
SLOTS = 'abcdefgh'
def sl(c): return 8 * SLOTS.index(c)
class History(object):
    """steps: (result slot or None, function, arguments); arguments: '@a' value of slot a, '&a' its address, '!3' the
    address of result cell 3, 'text', 'data', numbers, 'f0' an unknown float"""
    def __init__(s, name, *steps): s.name = name; s.steps = steps

def arg(st, a, P):
    if a.__class__ is int: return a
    if a == 'null': return NULL
    if a[0] == '@': return st.mem[HELD].get(sl(a[1]), (NULL, 8))[0]
    if a[0] == '&': return ('p', HELD, sl(a[1]))
    if a[0] == '!': return ('p', OUTV, 8 * int(a[1:]))
    if a == 'text': return ('p', TXT, 0)
    if a == 'data': return ('p', DATA, 0)
    if a[0] == 'f': return T.A(('env', a))
    if a[0] == 'i':
        v = T.A(('env', a)); refine(st, single_atom(v), -(1 << 31), (1 << 31) - 1); return v
    raise ValueError(a)

def play(P, h, limit=100):
    c = Life(P, h.name)
    st = State()
    st.objs[HELD] = ('ext', 64, 'ext', 'held by the caller'); st.mem[HELD] = {}
    st.objs[OUTV] = ('ext', 128, 'ext', 'results'); st.objs[TXT] = ('ext', None, 'ext', 'text'); st.objs[DATA] = ('ext', None, 'ext', 'data')
    st.roots = (frozenset([HELD, OUTV, TXT, DATA]),)
    states = [st]; steps = 0; inc = []; dropped = 0
    for k, (res, fn, args) in enumerate(h.steps):
        nxt = []
        for st in states:
            st = st.copy(); st.note('%s(%s)' % (fn, ', '.join(str(a) for a in args)))
            if fn == 'free':
                p = arg(st, args[0], P)
                if is_ptr(p) and p[1] in st.objs and p[1][0] == 'heap': st.objs[p[1]] = st.objs[p[1]][:2] + ('freed', 'the caller'); st.mem.pop(p[1], None)
                nxt.append(st); continue
            if fn == 'fill':
                # the caller writes the contents
                p = arg(st, args[0], P)
                if is_ptr(p): st.mem[p[1]] = {'*': True}
                nxt.append(st); continue
            if fn == 'if':
                if arg(st, args[0], P) != NULL: nxt.append(st)
                continue
            if fn.endswith('_release'):
                # nothing to release when there is no object
                if st.mem[HELD].get(sl(args[0][1]), (NULL, 8))[0] == NULL: nxt.append(st); continue
            f = P.funcs.get(fn)
            if fn in INTERNAL:
                L = [x for x in P.bysrc.get(fn, []) if not x.decl]
                f = L[0] if L else None
                if f is None: inc.append('%s: there is no function %s any more' % (h.name, fn)); nxt = []; break
            if f is None or f.decl: raise build.Broken('%s is gone' % fn)
            I = Interp(P, c)
            av = [arg(st, a, P) for a in args]
            if f.args and f.d.get('sret'): pass
            try: outs = I.call_function(f, st, av, 'API%d' % k, 0, ())
            except Budget: inc.append('%s: step budget exhausted at %s' % (h.name, fn)); steps += I.nsteps; continue
            steps += I.nsteps
            inc += ['%s: %s' % (h.name, x) for x in I.incomplete]
            for s2, v, kind in outs:
                if kind != 'ret': continue
                if res:
                    if v == UNDEF: c.rep(I, s2, None, None, 'undef', 'x') if False else None
                    s2.mem[HELD] = dict(s2.mem[HELD]); s2.mem[HELD][sl(res)] = (v if v is not None else 0, 8)
                    if is_ptr(v) and v[1][0] == 'D': pass
                nxt.append(s2)
        # equal situations once
        if len(nxt) > limit: dropped += len(nxt) - limit; nxt = nxt[:limit]
        states = nxt
    leaks = {}
    for st in states:
        for o, ob in st.objs.items():
            if o[0] == 'heap' and ob[2] == 'live': leaks.setdefault(ob[3], show_trace(st.notes()))
    return dict(name=h.name, reports=[dict(kind=r.kind, where=r.where, func=r.func, what=r.what, trace=r.trace, stack=r.stack) for r in c.reports.values()], leaks=leaks, steps=steps, inc=inc, ends=len(states),
                dropped=dropped, acc=dict(c.accesses))

def histories():
    C = consts(); H = []
    add_ = lambda name, *s: H.append(History(name, *s))
    # images
    IMG = {'path': ('a', 'trax_image_create_path', ['text']), 'url': ('a', 'trax_image_create_url', ['text']),
           'buffer': ('a', 'trax_image_create_buffer', [16, 'data'])}
    for n in ('RGB', 'GRAY8', 'GRAY16'):
        if 'TRAX_IMAGE_MEMORY_' + n in C: IMG['memory ' + n] = ('a', 'trax_image_create_memory', [2, 3, C['TRAX_IMAGE_MEMORY_' + n]])
    USE = {'path': [(None, 'trax_image_get_path', ['@a'])], 'url': [(None, 'trax_image_get_url', ['@a'])],
           'buffer': [(None, 'trax_image_get_buffer', ['@a', '!0', '!1'])],
           'memory': [(None, 'trax_image_get_memory_header', ['@a', '!0', '!1', '!2']), ('h', 'trax_image_write_memory_row', ['@a', 1]), (None, 'fill', ['@h']), (None, 'trax_image_get_memory_row', ['@a', 2])]}
    for n, mk in IMG.items():
        add_('%s image' % n, mk, (None, 'trax_image_get_type', ['@a']), *(USE[n.split()[0]] + [(None, 'trax_image_release', ['&a'])]))
        add_('%s image in a list' % n, mk, ('b', 'trax_image_list_create', []), (None, 'trax_image_list_set', ['@b', '@a', C['TRAX_CHANNEL_COLOR'] if 'TRAX_CHANNEL_COLOR' in C else 1]),
             (None, 'trax_image_list_get', ['@b', 1]), (None, 'trax_image_list_clear', ['@b']), (None, 'trax_image_list_release', ['&b']))
    # regions
    REG = {'special region': [('a', 'trax_region_create_special', ['i0'])], 'rectangle': [('a', 'trax_region_create_rectangle', ['f0', 'f1', 'f2', 'f3'])],
           'polygon': [('a', 'trax_region_create_polygon', [3])] + [(None, 'trax_region_set_polygon_point', ['@a', k, 'f%d' % (2 * k), 'f%d' % (2 * k + 1)]) for k in range(3)],
           'mask': [('a', 'trax_region_create_mask', [1, 2, 2, 2]), ('h', 'trax_region_write_mask_row', ['@a', 0]), (None, 'fill', ['@h'])]}
    rel = lambda c: (None, 'trax_region_release', ['&' + c])
    OWN = {'special region': [(None, 'trax_region_get_special', ['@a']), (None, 'trax_region_set_special', ['@a', 'i1'])],
           'rectangle': [(None, 'trax_region_get_rectangle', ['@a', '!0', '!1', '!2', '!3']), (None, 'trax_region_set_rectangle', ['@a', 'f0', 'f1', 'f2', 'f3'])],
           'polygon': [(None, 'trax_region_get_polygon_count', ['@a']), (None, 'trax_region_get_polygon_point', ['@a', 1, '!0', '!1'])],
           'mask': [(None, 'trax_region_get_mask_header', ['@a', '!0', '!1', '!2', '!3']), (None, 'trax_region_get_mask_row', ['@a', 1])]}
    for n, mk in REG.items():
        add_(n, *(mk + [(None, 'trax_region_get_type', ['@a'])] + OWN[n] + [rel('a')]))
        add_('copy of a %s' % n, *(mk + [('b', 'trax_region_clone', ['@a']), rel('a')] + [(r, f, ['@b' if x == '@a' else x for x in a]) for r, f, a in OWN[n]] + [rel('b')]))
        add_('text of a %s' % n, *(mk + [('b', 'trax_region_encode', ['@a']), (None, 'free', ['@b']), rel('a')]))
        add_('test of a %s' % n, *(mk + [(None, 'trax_region_contains', ['@a', 'f7', 'f8']), rel('a')]))
        for t in ('SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK'):
            if t == 'MASK' and n != 'mask': continue
            add_('%s converted to %s' % (n, t), *(mk + [('b', 'trax_region_convert', ['@a', C['TRAX_REGION_' + t]]), rel('a'), rel('b')]))
        # object lists
        add_('%s in an object list' % n, *(mk + [('b', 'trax_object_list_create', [2]), (None, 'trax_object_list_set', ['@b', 0, '@a']), (None, 'trax_object_list_set', ['@b', 1, '@a']), rel('a'),
             ('c', 'trax_object_list_get', ['@b', 1]), (None, 'trax_region_get_type', ['@c']), (None, 'trax_object_list_properties', ['@b', 1]), (None, 'trax_object_list_count', ['@b']), (None, 'trax_object_list_release', ['&b'])]))
        add_('%s set again in an object list' % n, *(mk + [('b', 'trax_object_list_create', [1]), (None, 'trax_object_list_set', ['@b', 0, '@a']), ('c', 'trax_object_list_get', ['@b', 0]),
             (None, 'trax_object_list_set', ['@b', 0, '@c']), (None, 'trax_object_list_set', ['@b', 0, '@a']), rel('a'), (None, 'trax_object_list_release', ['&b'])]))
        add_('object list with a %s appended' % n, *(mk + [('b', 'trax_object_list_create', [1]), ('c', 'trax_object_list_create', [1]), (None, 'trax_object_list_set', ['@b', 0, '@a']), (None, 'trax_object_list_set', ['@c', 0, '@a']), rel('a'),
             (None, 'trax_object_list_append', ['@b', '@c']), (None, 'trax_object_list_release', ['&c']), ('d', 'trax_object_list_get', ['@b', 1]), (None, 'trax_object_list_release', ['&b'])]))
        add_('object list with a %s appended to itself' % n, *(mk + [('b', 'trax_object_list_create', [1]), (None, 'trax_object_list_set', ['@b', 0, '@a']), rel('a'),
             (None, 'trax_object_list_append', ['@b', '@b']), (None, 'trax_object_list_release', ['&b'])]))
    add_('empty object list', ('b', 'trax_object_list_create', [0]), (None, 'trax_object_list_count', ['@b']), (None, 'trax_object_list_release', ['&b']))
    add_('object list without regions', ('b', 'trax_object_list_create', [2]), (None, 'trax_object_list_get', ['@b', 1]), (None, 'trax_object_list_release', ['&b']))
    add_('empty image list', ('b', 'trax_image_list_create', []), (None, 'trax_image_list_get', ['@b', 1]), (None, 'trax_image_list_clear', ['@b']), (None, 'trax_image_list_release', ['&b']))
    add_('region from a text', ('a', 'trax_region_decode', ['text']), rel('a'))
    for n, u in (('copied', [('b', 'trax_region_clone', ['@a']), rel('b')]), ('tested', [(None, 'trax_region_contains', ['@a', 'f0', 'f1'])]), ('written', [('b', 'trax_region_encode', ['@a']), (None, 'free', ['@b'])]),
                 ('put in a list', [('b', 'trax_object_list_create', [1]), (None, 'trax_object_list_set', ['@b', 0, '@a']), (None, 'trax_object_list_release', ['&b'])])):
        add_('region from a text, %s' % n, *([('a', 'trax_region_decode', ['text']), (None, 'if', ['@a'])] + u + [rel('a')]))
    add_('image from a text', ('a', 'image_decode', ['text']), (None, 'trax_image_release', ['&a']))
    add_('image from a text, used', ('a', 'image_decode', ['text']), (None, 'if', ['@a']), (None, 'trax_image_get_type', ['@a']), (None, 'trax_image_release', ['&a']))
    for n, mk in IMG.items():
        add_('text of a %s image' % n, *([mk] + ([('h', 'trax_image_write_memory_row', ['@a', 0]), (None, 'fill', ['@h'])] if 'memory' in n else []) + [('b', 'image_encode', ['@a']), (None, 'free', ['@b']), (None, 'trax_image_release', ['&a'])]))
    # metadata
    m = [C.get('TRAX_REGION_RECTANGLE', 2), C.get('TRAX_IMAGE_PATH', 1), 1]
    for t in (['text', 'text', 'text'], ['null', 'null', 'null'], ['text', 'null', 'text']):
        add_('metadata (%s)' % ', '.join(t), ('a', 'trax_metadata_create', m + t + [0]), (None, 'trax_metadata_release', ['&a']))
    return H

PROG = None
def work(h):
    try: return play(PROG, h)
    except build.Broken: raise
    except Exception:
        import traceback
        return dict(name=h.name, reports=[], leaks={}, steps=0, inc=['%s: analysis stopped: %s' % (h.name, traceback.format_exc()[-400:])], ends=0, dropped=0, acc={'proved': 0, 'unproved': 0})

def run(pid, tier):
    global PROG
    from result import Result, Violation
    PROG = ir.Program(build.dump('core'))
    H = histories()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p: R = p.map(work, H, chunksize=1)
    r = Result('Histories of the objects a caller makes (images, regions, object lists, image lists, metadata: create, use, release) interpreted abstractly over the public functions and everything below them, string buffers excepted: no unreachable memory, no block left after the release, no use of unset, released or null memory.')
    kinds = ('leak',) if pid == 'M01' else ('null', 'freed', 'undef', 'badfree', 'oob')
    for x in R:
        n = x['ends']
        if pid == 'M01':
            r.obligations += n; r.discharged += n if not x['leaks'] else 0
            for o, tr in x['leaks'].items(): r.violations.append(Violation(o, x['name'], 'memory allocated at %s is left after the last release' % o, ['history: ' + x['name']] + tr[-12:]))
        else: r.obligations += x['acc']['proved']; r.discharged += x['acc']['proved']
        for v in x['reports']:
            if v['kind'] in kinds: r.violations.append(Violation(v['where'], v['func'], v['what'], ['history: ' + x['name']] + (['via ' + ' > '.join(v['stack'])] if v['stack'] else []) + v['trace'][-12:]))
        r.inconclusive += x['inc']
        if x['dropped']: r.inconclusive.append('%s: %d of the situations reached are not followed' % (x['name'], x['dropped']))
        if not n: r.inconclusive.append('%s: no end is reached' % x['name'])
    r.coverage = {'histories': [x['name'] for x in R], 'history_steps': sum(x['steps'] for x in R)}
    r.assumptions = ['allocation succeeds', 'histories use up to two objects of one kind; polygons of 3 points, masks of 2x2, lists of up to 2 objects']
    return r
if __name__ == '__main__':
    t = time.time()
    for pid in ('M01', 'M02'):
        r = run(pid, 'quick'); print(pid, r.obligations, r.discharged, '%.1f' % (time.time() - t))
        for v in r.violations[:15]: print(v.text())
        for i in sorted(set(r.inconclusive))[:30]: print('?', i)
