"""Loading of the JSON program view written by tools/irdump, with CFG facts (RPO, loops, liveness)."""
import json

class Inst(object):
    __slots__ = ('id', 'op', 't', 'sz', 'line', 'file', 'o', 'd')
    def __init__(s, d):
        s.id = d['i']; s.op = d['op']; s.t = d.get('t'); s.sz = d.get('sz', 0); s.line = d.get('l'); s.file = d.get('fl')
        s.o = d['o']; s.d = d

class Func(object):
    def __init__(s, d):
        s.d = d
        s.name = d['name']; s.dem = d['dem']; s.decl = d['decl']; s.args = d['args']; s.file = d.get('file', ''); s.line = d.get('line')
        s.nargs = len(s.args)
        s.src = d.get('src', s.name)
        s.vararg = d['vararg']
        s.internal = d['internal']
        s.linkonce = d.get('linkonce')
        s.noreturn = d['noreturn']
        s.nounwind = d['nounwind']
        s.cls = d.get('cls')
        s.blocks = []
        s.vars = {}      # value id -> source variable name
        s.vartypes = {}
        for b in d.get('blocks', []):
            L = []
            for x in b:
                if isinstance(x, list):
                    s.vars.setdefault(x[2], x[3]); s.vartypes.setdefault(x[2], x[4]); continue
                L.append(Inst(x))
            s.blocks.append(L)
        s.succ = [self_succ(b) for b in s.blocks]
        s.pred = [[] for _ in s.blocks]
        for i, ss in enumerate(s.succ):
            for t in ss:
                if i not in s.pred[t]:
                    s.pred[t].append(i)
        s._prep = False

    def prep(s):
        if s._prep or not s.blocks:
            return
        s._prep = True
        n = len(s.blocks)
        seen, order = set(), []
        stack = [(0, iter(s.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    stack.append((t, iter(s.succ[t])))
                    break
            else:
                order.append(b); stack.pop()
        order.reverse()
        s.rpo = order
        s.rpoi = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in s.pred[b] if p in idom]
                if not ps: continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while s.rpoi[a] > s.rpoi[c]: a = idom[a]
                        while s.rpoi[c] > s.rpoi[a]: c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x; ch = True
        s.idom = idom
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        s.dom = dom
        # natural loops
        s.loops = {}
        for b in order:
            for t in s.succ[b]:
                if t in s.rpoi and s.rpoi[t] <= s.rpoi[b] and dom(t, b):
                    body = s.loops.setdefault(t, {t})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x)
                        w.extend(p for p in s.pred[x] if p in s.rpoi)
        s.irreducible = any(s.rpoi[t] <= s.rpoi[b] and not dom(t, b) for b in order for t in s.succ[b] if t in s.rpoi)
        # liveness of SSA values
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]
        for b in order:
            for I in s.blocks[b]:
                if I.op == 'phi':
                    for v, p in I.o:
                        if v[0] == '%': phiuse[p].add(v[1])
                else:
                    for v in operands(I):
                        if v[1] not in dfn[b]: use[b].add(v[1])
                dfn[b].add(I.id)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse[b])
                for t in s.succ[b]: out |= live[t]
                new = use[b] | (out - dfn[b])
                if new != live[b]:
                    live[b] = new; ch = True
        s.live_in = live
        s.live_out = [set() for _ in range(n)]
        for b in order:
            out = set(phiuse[b])
            for t in s.succ[b]: out |= live[t]
            s.live_out[b] = out
        # last use inside blocks for call sites: values live after instruction k
        s._after = {}

    def live_after(s, b, k):
        """SSA values live after instruction index k of block b"""
        key = (b, k)
        r = s._after.get(key)
        if r is None:
            live = set(s.live_out[b])
            for I in reversed(s.blocks[b][k + 1:]):
                live.discard(I.id)
                if I.op != 'phi':
                    for v in operands(I): live.add(v[1])
            r = s._after[key] = frozenset(live)
        return r

    def where(s, I):
        f = I.file or s.file
        return '%s:%s' % (short(f), I.line if I.line is not None else '?')

def short(f):
    if f and '/repo/' in f: return f.split('/repo/', 1)[1]
    return f or '?'

def flat(v, out):
    if v and v[0] == '%': out.append(v)
    elif v and v[0] == 'gep': flat(v[1], out)

def operands(I):
    out = []
    for v in I.o:
        flat(v, out)
    if 'var' in I.d:
        for v, sc in I.d['var']: flat(v, out)
    if 'callee' in I.d: flat(I.d['callee'], out)
    return out

def self_succ(b):
    if not b: return []
    t = b[-1]
    if t.op == 'br' or t.op == 'invoke': r = t.d['s']
    elif t.op == 'switch': r = [t.d['def']] + [c[1] for c in t.d['cases']]
    else: r = []
    out = []
    for x in r:
        if x not in out: out.append(x)
    return out

class Program(object):
    def __init__(s, path):
        d = json.load(open(path))
        s.funcs = {f['name']: Func(f) for f in d['funcs']}
        s.globals = {g['name']: g for g in d['globals']}
        s.structs = d['structs']
        s.di = d['di']
        s.didx = {}
        for t in d['di']:
            s.didx.setdefault(t['name'], t)
        s.bysrc = {}
        for f in s.funcs.values():
            s.bysrc.setdefault(f.src, []).append(f)

    def enum_value(s, name):
        """value of an enumerator of the C sources"""
        for d in s.didx.values():
            if d.get('kind') == 'enum':
                for m in d['members']:
                    if m[0] == name: return m[1]
        raise KeyError(name)
    def field(s, struct, name):
        """(offset, size) of a named member, resolved from debug info"""
        t = s.didx[struct]
        for m in t['members']:
            if m[0] == name: return m[1], m[2]
        raise KeyError((struct, name))

    def string(s, gname):
        g = s.globals.get(gname)
        if not g or not g.get('const') or 'init' not in g: return None
        return init_string(g['init'])

def init_string(i):
    if i[0] == 'arr' and i[1] == 1:
        bs = bytes((x[1] & 255) if x[0] == 'c' else 0 for x in i[2])
        z = bs.find(b'\0')
        return bs[:z] if z >= 0 else None
    if i[0] == 'zero': return b''
    return None
