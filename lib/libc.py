"""Models of the C library functions used by the code under analysis.  malloc & co are assumed to succeed."""
from terms import *
import terms as T
from absint import bounds, eq, le, assume_le, assume_eq, assume_ne, refine, UNDEF, NULL, decide, lb, ub

def site(fr, I): return (fr.ctx, fr.f.name, I.id)

def forget_len(st, o):
    st.cnt[('len', o)] = st.cnt.get(('len', o), 0) + 1

def strlen_term(I, st, p):
    """length of the string at p as a term"""
    if is_ptr(p) and p[1][0] == 'G' and is_int(p[2]):
        s = I.p.string(p[1][1])
        if s is not None and 0 <= p[2] <= len(s): return len(s) - p[2]
    if not is_ptr(p): 
        v = T.A(('strlen', p, 0))
        refine(st, single_atom(v), 0, 1 << 31)
        return v
    o = p[1]
    c = st.mem.get(o, {}).get(p[2]) if is_num(p[2]) else None
    if c is not None and c[1] == 1 and c[0] == 0: return 0
    ss = st.mem.get(o, {}).get('#len')
    if ss is not None: return sub(ss[0], p[2])
    if is_int(p[2]) and c is not None and is_int(c[0]):
        # a text all of whose bytes are known
        m = st.mem[o]; k = p[2]
        while True:
            x = m.get(k)
            if x is None or x.__class__ is not tuple or x[1] != 1 or not is_int(x[0]): break
            if x[0] == 0: return k - p[2]
            k += 1
    v = T.A(('strlen', o, p[2], st.cnt.get(('len', o), 0)))
    a = single_atom(v)
    if a not in st.info: st.info[a] = (0, (1 << 31) - 1, frozenset())
    return v

def setlen(st, o, n):
    forget_len(st, o)
    m = dict(st.mem.get(o) or {})
    m['#len'] = (n, 0)
    st.mem[o] = m

def m_malloc(I, st, fr, ins, args):
    n = I.num(st, args[0], (fr.uid, ins.id, 'n'))
    o = I.newobj(st, 'heap', site(fr, ins), n)
    forget_len(st, o)
    st.objs[o] = (st.objs[o][0], st.objs[o][1], st.objs[o][2], fr.f.where(ins))
    I.c.on_alloc(I, st, fr, ins, o, n)
    return [(st, ('p', o, 0))]

def m_calloc(I, st, fr, ins, args):
    a = I.num(st, args[0], (fr.uid, ins.id, 'n')); b = I.num(st, args[1], (fr.uid, ins.id, 'm'))
    n = mul(a, b)
    if n is None: n = I.fresh(st, (fr.uid, ins.id, 'sz'), 0)
    r = m_malloc(I, st, fr, ins, [n])
    st.mem[r[0][1][1]] = {'zero': True}
    return r

def m_free(I, st, fr, ins, args):
    p = args[0]
    if p == UNDEF:
        I.c.on_undef(I, st, fr, ins, 'freed pointer'); return []
    p = I.as_ptr(p) if not is_ptr(p) else p
    if p == NULL or not is_ptr(p): return [(st, None)]
    o = p[1]
    r = st.objs.get(o)
    if r is None:
        I.c.on_free_ext(I, st, fr, ins, p)
        if o[0] == 'D' and p[2] == 0:
            n = I.null_state(st, p)
            if n is not True: 
                st.objs[o] = ('ext', None, 'freed', fr.f.where(ins))
                st.mem.pop(o, None)
        return [(st, None)]
    if r[2] == 'freed' or (r[2].__class__ is tuple and r[2][0] == 'owned'):
        I.c.on_freed(I, st, fr, ins, p, 'free'); return []
    if r[0] == 'stack': I.c.on_badfree(I, st, fr, ins, p); return []
    if p[2] != 0 and eq(st, p[2], 0) is False: I.c.on_badfree(I, st, fr, ins, p); return []
    if r[2] == 'escaped' and r[1] is None and o[2] == 3: return [(st, None)]      # summary object
    I.c.on_free(I, st, fr, ins, p)
    st.objs[o] = (r[0], r[1], 'freed', fr.f.where(ins))
    st.mem.pop(o, None)
    return [(st, None)]

def m_realloc(I, st, fr, ins, args):
    p = args[0]
    n = I.num(st, args[1], (fr.uid, ins.id, 'n'))
    if p == UNDEF: I.c.on_undef(I, st, fr, ins, 'pointer'); return []
    p = I.as_ptr(p) if not is_ptr(p) else p
    out = []
    if p == NULL: return m_malloc(I, st, fr, ins, [n])
    o = p[1] if is_ptr(p) else None
    r = st.objs.get(o) if o else None
    if r and r[2] == 'freed':
        I.c.on_freed(I, st, fr, ins, p, 'realloc'); return []
    if r and r[0] == 'heap':
        # same storage, new size (the move is unobservable as the old pointer must not be used any more)
        m = st.mem.get(o)
        st.objs[o] = ('heap', r[1], 'freed', fr.f.where(ins))
        st.mem.pop(o, None)
        if o[1] == site(fr, ins) and o[2] == 0:
            # a second growth at the same place: the old block gets another name, so that the new one has a stable name
            o2 = ('heap', o[1], 9)
            st.objs[o2] = st.objs.pop(o)
            def rn(v): return ('p', o2, v[2]) if is_ptr(v) and v[1] == o else v
            st.regs = {k_: rn(v) for k_, v in st.regs.items()}
            for ob in list(st.mem):
                mm = st.mem[ob]
                if mm and any(isinstance(x, tuple) and is_ptr(x[0]) and x[0][1] == o for x in mm.values()):
                    st.mem[ob] = {k_: ((rn(x[0]), x[1]) if isinstance(x, tuple) else x) for k_, x in mm.items()}
        q = I.newobj(st, 'heap', site(fr, ins), n)
        forget_len(st, q)
        st.objs[q] = ('heap', n, 'live' if st.objs[q][2] == 'live' else st.objs[q][2], fr.f.where(ins))
        if m:
            m = dict(m)
            if 'zero' in m: m['*'] = True; del m['zero']
            if '*' not in m and not any(k for k in m if not is_int(k)): pass
            st.mem[q] = m
        else: st.mem[q] = {}
        I.c.on_alloc(I, st, fr, ins, q, n)
        return [(st, ('p', q, 0))]
    if is_ptr(p):
        st.objs[o] = ('ext', None, 'freed', fr.f.where(ins)) if o[0] == 'D' else st.objs.get(o, ('ext', None, 'freed', ''))
    q = I.newobj(st, 'heap', site(fr, ins), n)
    st.objs[q] = ('heap', n, st.objs[q][2], fr.f.where(ins))
    st.mem[q] = {'*': True}
    I.c.on_alloc(I, st, fr, ins, q, n)
    return [(st, ('p', q, 0))]

def rd(I, st, fr, ins, p):
    """string argument is read"""
    p = I.check_ptr(st, fr, ins, p, 'read')
    if p is not None: I.c.on_string(I, st, fr, ins, p)
    return p

def m_strlen(I, st, fr, ins, args):
    p = rd(I, st, fr, ins, args[0])
    if p is None: return []
    return [(st, strlen_term(I, st, p))]

def m_strdup(I, st, fr, ins, args):
    p = rd(I, st, fr, ins, args[0])
    if p is None: return []
    n = strlen_term(I, st, p)
    r = m_malloc(I, st, fr, ins, [add(n, 1)])
    o = r[0][1][1]
    st.mem[o] = {'*': True, '#len': (n, 0)}
    I.c.on_copy_string(I, st, fr, ins, r[0][1], p)
    return r

def m_strcpy(I, st, fr, ins, args):
    d = I.check_ptr(st, fr, ins, args[0], 'write')
    if d is None: return []
    s = rd(I, st, fr, ins, args[1])
    if s is None: return []
    n = strlen_term(I, st, s)
    I.c.on_access(I, st, fr, ins, d, add(n, 1), 'write')
    if is_ptr(d):
        m = dict(st.mem.get(d[1]) or {})
        for k in [k for k in m if not isinstance(k, str)]:
            del m[k]
        m['*'] = True; m.pop('zero', None)
        st.mem[d[1]] = m
        setlen(st, d[1], add(d[2], n))
    I.c.on_copy_string(I, st, fr, ins, d, s)
    return [(st, args[0])]

def cstr(I, st, p):
    if is_ptr(p) and p[1][0] == 'G' and is_int(p[2]):
        s = I.p.string(p[1][1])
        if s is not None: return s[p[2]:]
    return None

def m_strcmp(I, st, fr, ins, args):
    a = rd(I, st, fr, ins, args[0])
    if a is None: return []
    b = rd(I, st, fr, ins, args[1])
    if b is None: return []
    x, y = cstr(I, st, a), cstr(I, st, b)
    nm = ins.d['callee'][1]
    if x is not None and y is not None and nm in ('strcmp', 'strcasecmp'):
        if nm == 'strcasecmp': x = x.lower(); y = y.lower()
        return [(st, 0 if x == y else (1 if x > y else -1))]
    key = ('op', nm) + tuple(v if is_num(v) else T.A(('addr', v[1], v[2])) for v in (a, b))
    if len(args) > 2: key += (I.num(st, args[2], (fr.uid, ins.id, 'n')),)
    v = T.A(key)
    return [(st, v)]

def num_ret(lo=-INF, hi=INF):
    def m(I, st, fr, ins, args):
        if ins.t == 'void' or not ins.t: return [(st, None)]
        return [(st, I.typed(st, I.fresh(st, (fr.uid, ins.id, 'ret'), lo, hi), ins.t, ins.sz))]
    return m

def read_args(idx, lo=-INF, hi=INF):
    def m(I, st, fr, ins, args):
        for i in idx:
            if i < len(args) and rd(I, st, fr, ins, args[i]) is None: return []
        if not ins.t: return [(st, None)]
        return [(st, I.typed(st, I.fresh(st, (fr.uid, ins.id, 'ret'), lo, hi), ins.t, ins.sz))]
    return m

def m_assert_fail(I, st, fr, ins, args):
    I.c.on_assert(I, st, fr, ins, cstr(I, st, args[0]))
    return []

def m_sprintf(I, st, fr, ins, args):
    nm = ins.d['callee'][1]
    k = 1 if nm in ('sprintf', 'vsprintf') else 2
    if k == 2 and args[1] == 0:
        # only the length is asked for
        I.c.on_format(I, st, fr, ins, None, cstr(I, st, args[2]), args[3:])
        return [(st, I.fresh(st, (fr.uid, ins.id, 'ret'), 0, (1 << 31) - 1))]
    d = I.check_ptr(st, fr, ins, args[0], 'write')
    if d is None: return []
    if k == 2:
        n = I.num(st, args[1], (fr.uid, ins.id, 'n'))
        I.c.on_access(I, st, fr, ins, d, n, 'write')
    fm = cstr(I, st, args[k])
    I.c.on_format(I, st, fr, ins, d, fm, args[k + 1:])
    if is_ptr(d):
        m = {'*': True}
        st.mem[d[1]] = m if d[2] == 0 else dict({kk: vv for kk, vv in (st.mem.get(d[1]) or {}).items() if kk != '#len'}, **m)
        forget_len(st, d[1])
    r = I.fresh(st, (fr.uid, ins.id, 'ret'), -1, (1 << 31) - 1)
    if k == 2:
        # the C99 contract: the value is the length the complete text would have had
        pass
    return [(st, r)]

def m_ctype(I, st, fr, ins, args):
    o = ('ctypep',)
    st.mem[o] = {0: (('p', ('G', '__ctype_tab'), 0), 8)}
    return [(st, ('p', o, 0))]

def m_strtok_r(I, st, fr, ins, args):
    """strtok_r(s, delim, save): a token is NULL or a non-empty string inside the buffer"""
    sv = I.check_ptr(st, fr, ins, args[2], 'write')
    if sv is None: return []
    s = I.as_ptr(args[0]) if not is_ptr(args[0]) else args[0]
    if s == NULL:
        cur = (st.mem.get(sv[1]) or {}).get(sv[2])
        if cur is None and sv[1][0] == 'stack': I.c.on_undef(I, st, fr, ins, 'strtok state'); return []
        base = cur[0] if cur else ('p', ('D', T.A(('init', sv[1], sv[2], 'ptr'))), 0)
    else:
        s = rd(I, st, fr, ins, s)
        if s is None: return []
        base = s
    if base == NULL: return [(st, NULL)]
    s2 = st.copy()
    I.setmem(s2, sv[1], sv[2], NULL, 8)
    off = I.fresh(st, (fr.uid, ins.id, 'tok'), 0)
    tok = ('p', base[1], off) if is_ptr(base) else ('p', ('D', off), 0)
    if is_ptr(base):
        forget_len(st, base[1])
        r = st.objs.get(base[1])
    I.setmem(st, sv[1], sv[2], ('p', base[1], I.fresh(st, (fr.uid, ins.id, 'rest'), 0)) if is_ptr(base) else base, 8)
    return [(st, tok), (s2, NULL)]

def m_strtox(I, st, fr, ins, args):
    s = rd(I, st, fr, ins, args[0])
    if s is None: return []
    if len(args) > 1 and args[1] != NULL and is_ptr(args[1]):
        off = I.fresh(st, (fr.uid, ins.id, 'end'), 0)
        base = s[2] if is_ptr(s) else 0
        I.setmem(st, args[1][1], args[1][2], ('p', s[1], add(base, off)) if is_ptr(s) else s, 8)
    if ins.t == 'i64': v = I.fresh(st, (fr.uid, ins.id, 'ret'))
    elif ins.t == 'i32': v = I.fresh(st, (fr.uid, ins.id, 'ret'), -(1 << 31), (1 << 31) - 1)
    else: v = I.fresh(st, (fr.uid, ins.id, 'ret'))
    return [(st, v)]

def m_strchr(I, st, fr, ins, args):
    s = rd(I, st, fr, ins, args[0])
    if s is None: return []
    s2 = st.copy()
    n = strlen_term(I, st, s)
    off = I.fresh(st, (fr.uid, ins.id, 'ix'), 0)
    assume_le(st, off, n)
    return [(st, ('p', s[1], add(s[2], off)) if is_ptr(s) else s), (s2, NULL)]

def m_memchr(I, st, fr, ins, args):
    s = rd(I, st, fr, ins, args[0])
    if s is None: return []
    s2 = st.copy()
    off = I.fresh(st, (fr.uid, ins.id, 'ix'), 0)
    assume_le(st, add(off, 1), I.num(st, args[2], (fr.uid, ins.id, 'n')))
    return [(st, ('p', s[1], add(s[2], off)) if is_ptr(s) else s), (s2, NULL)]

def m_memcpy(I, st, fr, ins, args): return [(x[0], x[1]) for x in I.memcpy(fr, ins, st, args[0], args[1], args[2])]
def m_memset(I, st, fr, ins, args): return [(x[0], x[1]) for x in I.memset(fr, ins, st, args[0], args[1], args[2])]

def m_getenv(I, st, fr, ins, args):
    s2 = st.copy()
    v = ('p', ('ext', 'env', fr.f.where(ins)), 0)
    return [(st, v), (s2, NULL)]

def m_rw(I, st, fr, ins, args):
    """read/recv/write/send: transfers between 1 and n bytes, or reports end of file (read) or an error"""
    nm = ins.d['callee'][1]
    n = I.num(st, args[2], (fr.uid, ins.id, 'n'))
    p = I.check_ptr(st, fr, ins, args[1], 'write' if nm in ('read', 'recv') else 'read')
    if p is None: return []
    I.c.on_access(I, st, fr, ins, p, n, 'write' if nm in ('read', 'recv') else 'read')
    v = I.fresh(st, (fr.uid, ins.id, 'ret'), -1)
    assume_le(st, v, n)
    if nm in ('read', 'recv') and is_ptr(p): I.havoc(st, p[1]) if st.objs.get(p[1]) else None
    return [(st, v)]

def m_exit(I, st, fr, ins, args): return []

MODELS = {
    'malloc': m_malloc, 'calloc': m_calloc, 'realloc': m_realloc, 'free': m_free,
    'strlen': m_strlen, 'strdup': m_strdup, 'strcpy': m_strcpy,
    'strcmp': m_strcmp, 'strncmp': m_strcmp, 'strcasecmp': m_strcmp, 'strncasecmp': m_strcmp, 'memcmp': m_strcmp,
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset,
    'sprintf': m_sprintf, 'snprintf': m_sprintf, 'vsnprintf': m_sprintf, 'vsprintf': m_sprintf,
    '__assert_fail': m_assert_fail, 'abort': m_exit, 'exit': m_exit,
    '__ctype_b_loc': m_ctype, 'strtok_r': m_strtok_r, 'strtol': m_strtox, 'strtod': m_strtox, 'atoi': m_strtox, 'atof': m_strtox,
    'strtof': m_strtox, 'strtoul': m_strtox,
    'strchr': m_strchr, 'strrchr': m_strchr, 'strstr': m_strchr, 'memchr': m_memchr, 'getenv': m_getenv,
    'read': m_rw, 'recv': m_rw, 'write': m_rw, 'send': m_rw,
    'close': num_ret(-1, 0), 'fflush': num_ret(), 'fileno': num_ret(-1), 'perror': num_ret(), 'sleep': num_ret(0),
    'socket': num_ret(-1), 'connect': num_ret(-1, 0), 'listen': num_ret(-1, 0), 'setsockopt': num_ret(-1, 0),
    'shutdown': num_ret(-1, 0), 'htons': num_ret(0, 65535), 'inet_addr': num_ret(), 'clock': num_ret(),
    'printf': num_ret(), 'fputs': num_ret(), 'fwrite': num_ret(), 'fprintf': num_ret(), 'puts': num_ret(), 'putchar': num_ret(),
    'isspace': num_ret(), 'tolower': num_ret(), 'toupper': num_ret(), 'usleep': num_ret(),
}
