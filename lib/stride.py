"""A small static evaluator for byte-coding loops: integers are affine in loop counters and a size parameter, pointers are
a base plus such an offset, bytes are tracked bit by bit (which bit of which input byte), and loops are summarised by the
stride of their phis (every phi must advance by a constant) and the trip count solved from the exit test.  Nothing is
executed: a loop is one symbolic iteration plus a count."""
import ir

class Unknown(Exception): pass

# ---- affine: dict symbol -> coefficient, '' is the constant
def aff(c): return {'': c} if c else {}
def asym(n): return {n: 1}
def aadd(a, b, m=1):
    r = dict(a)
    for k, v in b.items():
        x = r.get(k, 0) + m * v
        if x: r[k] = x
        else: r.pop(k, None)
    return r
def amul(a, m): return {k: v * m for k, v in a.items() if v * m}
def isc(a): return all(k == '' for k in a)
def con(a): return a.get('', 0)
def asub(a, sym, val):
    if sym not in a: return a
    r = dict(a); c = r.pop(sym)
    return aadd(r, val, c)
def akey(a): return tuple(sorted(a.items()))
# values: ('I', affine) ('P', base, affine) ('B', (bit, ...)) lsb first, ('E', table, bits)  ('T',) unknown
def I(c): return ('I', aff(c))
TOP = ('T',)
def bits_of(v, n):
    if v[0] == 'S': return [('y' + v[2], v[3], k) for k in range(6)][:n] + [0] * max(0, n - 6)
    if v[0] == 'B': return list(v[1][:n]) + [0] * max(0, n - len(v[1]))
    if v[0] == 'I' and isc(v[1]): return [(con(v[1]) >> i) & 1 for i in range(n)]
    return None
def mkbits(b):
    if all(x in (0, 1) and not isinstance(x, tuple) for x in b):
        return I(sum(x << i for i, x in enumerate(b)))
    return ('B', tuple(b))

class Loop(object):
    pass

class Ev(object):
    """evaluates one function.  q: None (the parameter stays symbolic, at least qmin) or a number"""
    def __init__(s, P, scan=None, q=None, qmin=3):
        s.P = P; s.q = q; s.qmin = qmin; s.scan = scan      # scan: affine number of leading symbols of the input
        s.stores = []          # (affine index incl. loop symbols, value, instruction, function, [(symbol, count)])
        s.loops = []; s.nk = 0; s.depth = 0; s.tables = {}; s.scans = []; s.steps = 0; s.active = []
    def nonneg(s, a):
        """lower bound of an affine value over q >= qmin and active counters in [0, count)"""
        lo = 0
        for k, v in a.items():
            if k == '': lo += v
            elif k == 'q':
                if v < 0: return False
                lo += v * s.qmin
            else:
                if v < 0 or k.startswith('f'): return False
        return lo >= 0
    def sign(s, a):
        """-1, 0, 1 when the sign of an affine value is the same for all values of its symbols (counters: at least 0)"""
        if not a: return 0
        if any(k[:1] == 'f' for k in a): return None
        if all(k in ('', 'q') or v > 0 for k, v in a.items()):
            lo = sum(v * (s.qmin if k == 'q' else 0) if k else v for k, v in a.items())
            if all(v > 0 for k, v in a.items() if k) and lo > 0: return 1
        if all(v < 0 for k, v in a.items() if k):
            hi = sum(v * (s.qmin if k == 'q' else 0) if k else v for k, v in a.items())
            if hi < 0: return -1
        return None
    # ---- operands
    def val(s, env, o):
        t = o[0]
        if t == '%': return env.get(o[1], TOP)
        if t == 'c':
            c = o[1]; w = o[2] if len(o) > 2 else 64
            if w <= 64 and c >= 1 << (w - 1) and w > 1: c -= 1 << w
            return I(c)
        if t == 'g': return ('P', ('G', o[1]), {})
        if t == 'null': return I(0)
        return TOP
    def op(s, env, i, fn):
        d = i.d; op = i.op
        O = d.get('o', [])
        if op in ('sext', 'zext', 'trunc'):
            v = s.val(env, O[0])
            w = d['sz'] * 8
            if v[0] == 'B': return mkbits(bits_of(v, w)) if op != 'sext' or True else v
            if v[0] == 'I' and op == 'trunc' and w == 8:
                if isc(v[1]): return I(con(v[1]) & 255)
                return TOP
            if v[0] == 'I' and op == 'zext' and isc(v[1]) and con(v[1]) < 0: return I(con(v[1]) + (1 << int(d['ft'][1:])))
            if v[0] == 'I' and op == 'zext' and not isc(v[1]) and not s.nonneg(v[1]): return TOP
            return v
        if op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'): return s.val(env, O[0])
        if op == 'getelementptr':
            p = s.val(env, O[0])
            if p[0] != 'P': return TOP
            off = aff(d.get('off') or 0)
            extra = None
            for x, m in d.get('var', []):
                v = s.val(env, x)
                if v[0] == 'I': off = aadd(off, amul(v[1], m))
                elif v[0] == 'B' and p[1][0] == 'G' and m == 1 and extra is None: extra = v
                else: return TOP
            if extra is not None:
                if off or p[2]: return TOP
                return ('X', p[1][1], extra)
            return ('P', p[1], aadd(p[2], off))
        if op == 'load':
            p = s.val(env, O[0])
            if p[0] == 'X': return s.table(p[1], p[2])
            if p[0] == 'P' and p[1][0] == 'G':
                t = s.bytes(p[1][1])
                if t is not None and isc(p[2]) and 0 <= con(p[2]) < len(t) and d.get('sz') == 1: return I(t[con(p[2])])
                return TOP
            if p[0] == 'P' and p[1][0] == 'arg' and d.get('sz') == 1:
                return ('B', tuple((p[1][1], akey(p[2]), k) for k in range(8)))
            if p[0] == 'P' and p[1][0] == 'A':
                return s.local.get((p[1][1], akey(p[2])), TOP)
            return TOP
        if op in ('add', 'sub'):
            a, b = s.val(env, O[0]), s.val(env, O[1]); m = 1 if op == 'add' else -1
            if a[0] == 'I' and b[0] == 'I': return ('I', aadd(a[1], b[1], m))
            if a[0] == 'P' and b[0] == 'I': return ('P', a[1], aadd(a[2], b[1], m))
            if a[0] == 'P' and b[0] == 'P' and op == 'sub' and a[1] == b[1]: return ('I', aadd(a[2], b[2], -1))
            if op == 'add' and 'B' in (a[0], b[0]):        # no carries when no bit is set on both sides
                n = d['sz'] * 8; x, y = bits_of(a, n), bits_of(b, n)
                if x and y and all(p == 0 or q == 0 for p, q in zip(x, y)): return mkbits([p or q for p, q in zip(x, y)])
            return TOP
        if op == 'mul':
            a, b = s.val(env, O[0]), s.val(env, O[1])
            if a[0] == 'I' and b[0] == 'I':
                if isc(a[1]): return ('I', amul(b[1], con(a[1])))
                if isc(b[1]): return ('I', amul(a[1], con(b[1])))
            if a[0] == 'B' and b[0] == 'I' and isc(b[1]) and con(b[1]) > 0 and con(b[1]) & (con(b[1]) - 1) == 0:
                n = d['sz'] * 8; k = con(b[1]).bit_length() - 1
                return mkbits(([0] * k + bits_of(a, n))[:n])
            return TOP
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr', 'shl', 'and', 'or', 'xor'):
            a, b = s.val(env, O[0]), s.val(env, O[1]); n = d['sz'] * 8
            if a[0] == 'I' and b[0] == 'I' and isc(b[1]):
                c = con(b[1]); x = a[1]
                if op == 'shl' and c >= 0: return ('I', amul(x, 1 << c))
                if op in ('sdiv', 'udiv', 'srem', 'urem', 'ashr', 'lshr') or (op == 'and' and c >= 0 and (c & (c + 1)) == 0):
                    m = c if op.endswith(('div', 'rem')) else (1 << c) if op.endswith('shr') else c + 1
                    if m <= 0: return TOP
                    if isc(x) and op in ('sdiv', 'srem', 'ashr') and con(x) < 0:
                        v = con(x); q_ = -(-v // m) if op != 'ashr' else v >> c
                        return I(q_ if op != 'srem' else v - m * q_)
                    if isc(x) and op in ('and',): return I(con(x) & c)
                    if not s.nonneg(x): return TOP
                    hi = {k: v // m for k, v in x.items() if k and v % m == 0}
                    if any(k and v % m for k, v in x.items()): return TOP
                    cc = con(x)
                    if op in ('srem', 'urem', 'and'): return I(cc % m)
                    return ('I', aadd(hi, aff(cc // m)))
                if isc(x) and op in ('and', 'or', 'xor'):
                    v = con(x)
                    return I(v & c if op == 'and' else v | c if op == 'or' else v ^ c)
            if b[0] == 'I' and isc(b[1]) and op in ('ashr', 'lshr', 'shl', 'sdiv', 'udiv'):
                x = bits_of(a, n)
                if x is None: return TOP
                c = con(b[1])
                if op.endswith('div'):
                    if c <= 0 or c & (c - 1): return TOP
                    c = c.bit_length() - 1
                if c < 0 or c > n: return TOP
                if op == 'shl': return mkbits(([0] * c + x)[:n])
                if op in ('ashr', 'sdiv') and x[-1] != 0: return TOP
                return mkbits(x[c:] + [0] * c)
            if op in ('and', 'or', 'xor'):
                x, y = bits_of(a, n), bits_of(b, n)
                if x is None or y is None: return TOP
                r = []
                for p, q in zip(x, y):
                    if op == 'and': z = 0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 or p == q else None
                    elif op == 'or': z = 1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 or p == q else None
                    else: z = q if p == 0 else p if q == 0 else 0 if p == q else None
                    if z is None:
                        if isinstance(p, tuple) and isinstance(q, tuple) and 'mix' not in (p[0], q[0]): z = ('mix', (), 0)   # a function of two bits is neither of them
                        else: return TOP
                    r.append(z)
                return mkbits(r)
            return TOP
        if op == 'icmp': return s.cmp(d, s.val(env, O[0]), s.val(env, O[1]))
        if op == 'select':
            c = s.val(env, O[0]); a, b = s.val(env, O[1]), s.val(env, O[2])
            if c[0] == 'I' and isc(c[1]): return a if con(c[1]) & 1 else b
            return a if a == b else TOP
        return TOP
    def cmp(s, d, a, b):
        pred = d['pred']
        if a[0] == 'P' and b[0] == 'P' and a[1] == b[1]: a, b = ('I', a[2]), ('I', b[2])
        if a[0] == 'I' and b[0] == 'I':
            x, y = a[1], b[1]
            if pred[0] == 'u' :
                w = 1 << (int(d['ct'][1:]) if d.get('ct', 'ptr') != 'ptr' else 64)
                if isc(x) and con(x) < 0: x = aff(con(x) + w)
                if isc(y) and con(y) < 0: y = aff(con(y) + w)
                if not (s.nonneg(x) and s.nonneg(y)): return ('C', pred[1:], None) if False else TOP
                pred = 's' + pred[1:]
            return s.truth(pred, aadd(x, y, -1))
        # test of a table entry: the set of bytes that are accepted
        for u, v, pr in ((a, b, pred), (b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred))):
            if u[0] == 'S' and v[0] == 'I' and isc(v[1]): return ('D', u, pr, con(v[1]))
        if a[0] == 'B' and b[0] == 'I' and isc(b[1]): return TOP
        return TOP
    def truth(s, pred, f):
        sg = s.sign(f)
        if sg is not None:
            r = {'eq': sg == 0, 'ne': sg != 0, 'slt': sg < 0, 'sle': sg <= 0, 'sgt': sg > 0, 'sge': sg >= 0}[pred]
            return I(1 if r else 0)
        # <= and < differ only at 0
        return ('F', pred, f)
    def bytes(s, g):
        G = s.P.globals.get(g) if isinstance(s.P.globals, dict) else None
        if not G or not G.get('const') or 'init' not in G: return None
        def flat(x):
            if x[0] == 'arr':
                if x[1] != 1: return None
                r = []
                for e in x[2]:
                    if e[0] != 'c': return None
                    r.append(e[1] & 255)
                return r
            if x[0] == 'zero': return [0] * x[1]
            return None
        return flat(G['init'])
    def table(s, g, v):
        t = s.bytes(g)
        if t is None: return TOP
        b = bits_of(v, 64)
        nz = [k for k, x in enumerate(b) if x != 0]
        if not nz: return I(t[0])
        if nz[-1] < 6 and len(t) >= 64 and len(t) < 256:
            s.tables.setdefault('encode', set()).add(g)
            return ('E', g, tuple(b[:6]))
        if len(t) >= 256 and len(nz) == 8 and all(isinstance(x, tuple) for x in b[:8]) and [x[2] for x in b[:8]] == list(range(8)) and len(set(x[:2] for x in b[:8])) == 1:
            s.tables.setdefault('decode', set()).add(g)
            return ('S', g, b[0][0], b[0][1])       # the table entry of one input byte
        return TOP
    # ---- walking
    def call(s, fname, args):
        f = s.P.funcs[fname]
        s.depth += 1
        if s.depth > 6: raise Unknown('call depth')
        env = {k: v for k, v in enumerate(args)}
        r = s.walk(f, 0, None, env, None)
        s.depth -= 1
        return r
    def block(s, f, b, prev, env, phis=True):
        """evaluates block b; returns the terminator"""
        B = f.blocks[b]
        if phis:
            vals = {}
            for i in B:
                if i.op != 'phi': break
                for o, pb in i.d['o']:
                    if pb == prev: vals[i.id] = s.val(env, o)
            env.update(vals)
        for i in B:
            s.steps += 1
            if s.steps > 200000: raise Unknown('too much code')
            if i.op == 'phi': continue
            if i.op in ('br', 'ret', 'switch', 'unreachable'): return i
            if i.op == 'store': s.store(f, env, i); continue
            if i.op == 'alloca': env[i.id] = ('P', ('A', i.id), {}); continue
            if i.op == 'call':
                c = i.d.get('callee')
                nm = c[1] if c and c[0] in ('g', 'f') else None
                if nm and nm.startswith('llvm.dbg') or nm and nm.startswith('llvm.lifetime'): continue
                g = s.P.funcs.get(nm) if nm else None
                if g is not None and not g.decl: 
                    env[i.id] = s.call(nm, [s.val(env, o) for o in i.d.get('o', i.d.get('args', []))]); continue
                raise Unknown('call of %s' % nm)
            v = s.op(env, i, f)
            env[i.id] = v
        raise Unknown('no terminator')
    def store(s, f, env, i):
        v, p = s.val(env, i.d['o'][0]), s.val(env, i.d['o'][1])
        if p[0] == 'P' and p[1][0] == 'arg' and i.d.get('ss') == 1:
            if v[0] in 'BS': v = mkbits(bits_of(v, 8))
            s.stores.append((p[1][1], p[2], v, i, f, tuple(s.active)))
        elif p[0] == 'P' and p[1][0] == 'A':
            s.local[(p[1][1], akey(p[2]))] = v
        else: raise Unknown('store to an unknown place in line %s' % i.d.get('l'))
    local = {}
    def loops_of(s, f):
        """header -> set of blocks (natural loops)"""
        if hasattr(f, '_nl'): return f._nl
        n = len(f.blocks); dom = [set(range(n)) for _ in range(n)]; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in range(1, n):
                ps = [dom[p] for p in f.pred[b]]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]: dom[b] = d; ch = True
        L = {}
        for b in range(n):
            for t in f.succ[b]:
                if t in dom[b]:
                    body = {t, b}; w = [b]
                    while w:
                        x = w.pop()
                        if x == t: continue
                        for p in f.pred[x]:
                            if p not in body: body.add(p); w.append(p)
                    L.setdefault(t, set()).update(body)
        f._nl = L
        return L
    def walk(s, f, b, prev, env, stop):
        """follows determined branches to the return; returns the value"""
        L = s.loops_of(f)
        while True:
            if b in L and (prev is None or prev not in L[b]):
                b, prev = s.loop(f, b, prev, env); continue
            t = s.block(f, b, prev, env)
            if t.op == 'ret': return s.val(env, t.d['o'][0]) if t.d.get('o') else None
            nb = s.branch(env, t)
            if nb is None: raise Unknown('branch in line %s' % t.d.get('l'))
            prev, b = b, nb
    def branch(s, env, t):
        if t.op == 'br':
            if not t.d['o']: return t.d['s'][0]
            c = s.val(env, t.d['o'][0])
            if c[0] == 'I' and isc(c[1]): return t.d['s'][0] if con(c[1]) & 1 else t.d['s'][1]
            return None
        if t.op == 'switch':
            c = s.val(env, t.d['o'][0])
            if c[0] == 'I' and isc(c[1]) and 'cases' in t.d:
                for v, blk in t.d['cases']:
                    if v == con(c[1]): return blk
                return t.d['def']
        return None
    def iterate(s, f, h, body, env):
        """one iteration from header h (its phis are already set); returns ('back', block) or ('exit', from, to) and the
        exit tests met: [(condition value, continue-on-true, from, to)]"""
        b = h; first = True; prev = None; exits = []
        L = s.loops_of(f)
        while True:
            if b in L and b != h:
                b, prev = s.loop(f, b, prev, env); first = False; continue
            t = s.block(f, b, prev, env, phis=not first)
            first = False
            if t.op == 'ret': raise Unknown('return inside a loop')
            nb = s.branch(env, t)
            if nb is None:
                if t.op != 'br': raise Unknown('switch')
                c = s.val(env, t.d['o'][0]); a, e = t.d['s']
                if a in body and e not in body: exits.append((c, True, b, e, len(s.stores))); nb = a
                elif e in body and a not in body: exits.append((c, False, b, a, len(s.stores))); nb = e
                else: raise Unknown('a branch inside a loop depends on data, line %s' % t.d.get('l'))
            elif nb not in body: return ('exit', b, nb), exits
            prev, b = b, nb
            if b == h: return ('back', prev), exits
    def loop(s, f, h, prev, env):
        body = s.loops_of(f)[h]
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        init = {}
        for i in phis:
            for o, pb in i.d['o']:
                if pb == prev: init[i.id] = s.val(env, o)
        # a loop whose test can be decided with the initial values may not run at all, or run a constant number of times
        def trial(env2, active):
            ns = len(s.stores); save = s.active
            s.active = s.active + active
            r = s.iterate(f, h, body, env2)
            s.active = save
            return r, ns
        # 1: strides
        s.nk += 1
        phisym = {}
        e1 = dict(env)
        for i in phis:
            v = init[i.id]; nm = 'f%d_%d' % (s.nk, i.id)
            phisym[i.id] = nm
            e1[i.id] = ('I', asym(nm)) if v[0] == 'I' else ('P', v[1], asym(nm)) if v[0] == 'P' else TOP
        try: (r, ex), ns = trial(e1, [])
        except Unknown: raise
        del s.stores[ns:]
        step = {}
        if r[0] == 'back':
            for i in phis:
                for o, pb in i.d['o']:
                    if pb == r[1]:
                        v = s.val(e1, o); nm = phisym[i.id]; w = e1[i.id]
                        if w[0] == 'T': step[i.id] = None; continue
                        if v[0] != w[0]: step[i.id] = None; continue
                        df = aadd(v[-1], w[-1], -1) if v[0] == 'I' or v[1] == w[1] else None
                        step[i.id] = con(df) if df is not None and isc(df) else None
        # 2: the general iteration
        s.nk += 1; k = 'k%d' % s.nk
        def at(kv):
            e = dict(env)
            for i in phis:
                v = init[i.id]; st = step[i.id]
                if st is None: e[i.id] = v if kv == {} else TOP
                elif v[0] == 'I': e[i.id] = ('I', aadd(v[1], amul(kv, st)))
                elif v[0] == 'P': e[i.id] = ('P', v[1], aadd(v[2], amul(kv, st)))
                else: e[i.id] = TOP
            return e
        e2 = at(asym(k))
        (r, ex), ns = trial(e2, [])
        general = s.stores[ns:]; del s.stores[ns:]
        T = None; where = None
        if r[0] == 'exit': T = {}; where = (r[1], r[2])
        elif not ex: raise Unknown('a loop without a recognised exit')
        for c, cont, b, e, n in ex:
            t = s.trip(c, cont, k)
            if t is None: raise Unknown('the number of iterations of the loop in line %s' % f.blocks[b][-1].d.get('l'))
            if T is None: T = t; where = (b, e)
            else:
                d = aadd(T, t, -1); sg = s.sign(d)
                if sg is None: raise Unknown('two exits')
                if sg > 0: T = t; where = (b, e)
        if s.sign(T) != 0:
            for st in general: s.stores.append(st[:5] + (tuple(list(s.active) + [(k, akey(T))]),))
        # the last, partial iteration
        e3 = at(T)
        s.loops.append((f, h, T))
        b = h; first = True; pv = None
        while True:
            t = s.block(f, b, pv, e3, phis=not first); first = False
            nb = s.branch(e3, t)
            if b == where[0]: nb = where[1]
            elif nb is None:
                a, e = t.d['s'] if t.op == 'br' else (None, None)
                nb = a if a in body and e not in body else e if e in body and a not in body else None
                if nb is None: raise Unknown('exit')
            pv, b = b, nb
            if b not in body: break
            if b == h: raise Unknown('exit of a loop')
        env.clear(); env.update(e3)
        return b, pv
    def trip(s, c, cont, k):
        """first value of k at which the test leaves the loop"""
        if c[0] == 'D':
            _, u, pr, n = c
            # entry of the table for input byte number (affine in k)
            idx = dict(u[3])
            if s.scan is None or idx != {k: 1}: return None
            t = s.bytes(u[1])
            acc = set()
            for x in range(256):
                e = t[x]
                r = {'slt': e < n, 'sle': e <= n, 'sgt': e > n, 'sge': e >= n, 'ult': e < n, 'ule': e <= n, 'ugt': e > n, 'uge': e >= n, 'eq': e == n, 'ne': e != n}[pr]
                if r == cont: acc.add(x)
            s.scans.append((u[1], frozenset(acc)))
            return s.scan
        if c[0] != 'F': return None
        pred, f = c[1], c[2]
        if not cont: pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}[pred]
        al = f.get(k, 0); rest = {x: v for x, v in f.items() if x != k}
        if al == 0 or any(x not in ('', 'q') for x in rest): return None
        if pred == 'slt': pass
        elif pred == 'sle': rest = aadd(rest, aff(-1))
        elif pred == 'sgt': al = -al; rest = amul(rest, -1)
        elif pred == 'sge': al = -al; rest = aadd(amul(rest, -1), aff(-1))
        elif pred == 'ne':
            if rest.get('q', 0) % al or con(rest) % al: return None
            T = amul({x: v // al for x, v in rest.items()}, -1)
            return T if s.nonneg(T) else None
        else: return None
        # continue while al*k + rest < 0
        if al < 0: return None
        b, g = rest.get('q', 0), con(rest)
        if b % al: return None
        T = aadd({'q': -b // al} if b else {}, aff(-(g // al)))
        T = {x: v for x, v in T.items() if v}
        if s.nonneg(T): return T
        if s.sign(T) == -1: return {}
        return None
