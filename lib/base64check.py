"""D03: Base64.  The coding tables are compared as constants; the coders are summarised by stride analysis with bit
provenance (stride.py): which input bits end up in which output cell, for every length."""
import build, ir
from stride import Ev, Unknown, aff, asym, aadd, akey, isc, con, I, TOP, mkbits
from result import Result

def fn(P, name):
    f = [n for n, f in P.funcs.items() if f.src == name and not f.decl]
    return f[0] if f else None

def where(f, i): return f.where(i)

def enc_expect(n):
    """cells of the encoding of n bytes: ('E', bits) or a character"""
    out = []
    def b(j, k): return ('in', akey(aff(j)), k)
    for g in range(0, n - n % 3, 3):
        bits = [b(g, k) for k in range(7, -1, -1)] + [b(g + 1, k) for k in range(7, -1, -1)] + [b(g + 2, k) for k in range(7, -1, -1)]
        for m in range(4): out.append(tuple(reversed(bits[6 * m:6 * m + 6])))
    r = n % 3
    if r:
        g = n - r
        bits = []
        for j in range(r): bits += [b(g + j, k) for k in range(7, -1, -1)]
        while len(bits) % 6: bits.append(0)
        for m in range(len(bits) // 6): out.append(tuple(reversed(bits[6 * m:6 * m + 6])))
        out += ['='] * (3 - r)
    return out + ['\0']

def dec_expect(n):
    out = []
    for j in range(3 * n // 4):
        bits = []
        for k in range(8):      # bit k of output byte j, counted from the most significant
            t = 8 * j + k
            bits.append(('yin', akey(aff(t // 6)), 5 - t % 6))
        out.append(tuple(reversed(bits)))
    return out + ['\0']

def shift(bits, d):
    return tuple(x if not isinstance(x, tuple) else (x[0], akey(aadd(dict(x[1]), d)), x[2]) for x in bits)

def show(e):
    if isinstance(e, str): return {'=': "'='", '\0': 'the terminator'}.get(e, repr(e))
    return 'bits ' + ' '.join('0' if x == 0 else '1' if x == 1 else '%s[%s].%d' % ('in' if x[0] == 'in' else 'symbol', dict(x[1]).get('', 0), x[2]) for x in reversed(e))

def same(v, e, ev):
    """does the stored value match the expectation?  None: cannot tell"""
    if isinstance(e, str):
        if v[0] == 'I' and isc(v[1]): return con(v[1]) & 255 == ord(e)
        return None if v == TOP else False
    if v == TOP: return None
    if v[0] == 'E': return tuple(v[2]) == tuple(e)
    if v[0] == 'B': return len(e) == 8 and tuple(v[1]) == tuple(e)
    if v[0] == 'I' and len(e) == 8: return False
    if v[0] == 'I': return None
    return False

def evaluate(P, name, args, **kw):
    ev = Ev(P, **kw); ev.local = {}
    return ev, ev.call(fn(P, name), args)

def subst(v, m):
    """replaces loop counters by numbers in a stored value"""
    def a(t):
        d = dict(t)
        for k, x in m.items():
            if k in d: c = d.pop(k); d = aadd(d, aff(c * x))
        return akey(d)
    if v[0] == 'B': return ('B', tuple(x if not isinstance(x, tuple) else (x[0], a(x[1]), x[2]) for x in v[1]))
    if v[0] == 'E': return ('E', v[1], tuple(x if not isinstance(x, tuple) else (x[0], a(x[1]), x[2]) for x in v[2]))
    return v

def cells(ev):
    """concrete size: index -> (value, instruction, function)"""
    out = {}
    for base, idx, v, i, f, act in ev.stores:
        if base != 'out': continue
        if len(act) > 1: raise Unknown('nested loops')
        rng = range(con(dict(act[0][1]))) if act else [None]
        for x in rng:
            m = {act[0][0]: x} if act else {}
            d = dict(idx)
            for k, c in m.items():
                if k in d: t = d.pop(k); d = aadd(d, aff(t * c))
            if not isc(d): raise Unknown('store at an unknown position')
            out[con(d)] = (subst(v, m), i, f)
    return out

def coder(P, r, name, lenname, params, expect, per, out_per):
    """per: input units per group, out_per: output cells per group"""
    f = P.funcs[fn(P, name)]
    head = f.where(f.blocks[0][-1])
    for rr in range(per):
        # every small size, then all sizes at least 3 groups plus rr
        for q in (0, 1, 2, None):
            label = '%d' % (q * per + rr) if q is not None else '%dq+%d, q >= 3' % (per, rr)
            size = aadd(amul_q(per, q), aff(rr))
            try:
                ev, ret = evaluate(P, name, params(size), q=q, qmin=3, scan=size if name == 'base64decode' else None)
                if q is not None: got = cells(ev); verify_small(r, f, name, label, got, expect(q * per + rr), ev)
                else: verify_all(r, f, name, label, ev, expect, per, out_per, rr)
                # the sizes agree
                lf = fn(P, lenname)
                if lf is None: r.inconclusive.append('%s does not exist' % lenname); continue
                ev2, ln = evaluate(P, lenname, [('I', size)] if name == 'base64encode' else [('P', ('arg', 'in'), {})], q=q, qmin=3, scan=size if name == 'base64decode' else None)
                want = expect(rr if q is None else q * per + rr)
                total = aadd(aff(len(want)), {'q': out_per} if q is None else {})
                g = P.funcs[lf]
                if ln is None or ln[0] != 'I': r.inconclusive.append('%s(%s): result' % (lenname, label))
                else:
                    d = aadd(ln[1], total, -1)
                    r.ob(not d, g.where(g.blocks[0][-1]), lenname, '%s for %s %s is %s, the coder fills %s cells' % (lenname, label, 'bytes' if name == 'base64encode' else 'symbols', fmt(ln[1]), fmt(total)), '', '%s-len-%d' % (lenname, rr))
                if name == 'base64decode' or True:
                    exp = total if name == 'base64encode' else aadd(total, aff(-1))
                    if ret is None or ret[0] != 'I': r.inconclusive.append('%s(%s): result' % (name, label))
                    else: r.ob(not aadd(ret[1], exp, -1), head, name, '%s of %s returns %s where %s were written' % (name, label, fmt(ret[1]), fmt(exp)), '', '%s-ret-%d' % (name, rr))
                for t, acc in ev.scans + ev2.scans: r._scans.add((t, acc))
                for k, v in ev.tables.items(): r._tables.setdefault(k, set()).update(v)
            except Unknown as e:
                r.inconclusive.append('%s, size %s: %s' % (name, label, e))
def fmt(a): return ' + '.join(('%d' % v if not k else '%d%s' % (v, k)) for k, v in sorted(a.items(), reverse=True)) or '0'
def amul_q(per, q): return {'q': per} if q is None else aff(per * q)

def verify_small(r, f, name, label, got, want, ev):
    for j, e in enumerate(want):
        if j not in got: r.ob(False, f.where(f.blocks[0][-1]), name, 'size %s: output cell %d is not written (it should hold %s)' % (label, j, show(e)), '', '%s-missing' % name); return
        v, i, g = got[j]
        ok = same(v, e, ev)
        r.ob(ok, g.where(i), name, 'size %s: output cell %d does not hold %s' % (label, j, show(e)), '', '%s-cell-%s' % (name, g.where(i).split(':')[-1]))
        if ok is False: return
    for j in got:
        if j < 0 or j >= len(want): r.ob(False, got[j][2].where(got[j][1]), name, 'size %s: a cell %d outside the %d cells of the result is written' % (label, j, len(want)), '', '%s-outside' % name); return

def verify_all(r, f, name, label, ev, expect, per, out_per, rr):
    """q symbolic: the loop covers the groups 0..T-1, the rest is written behind it"""
    body = [s for s in ev.stores if s[5] and s[0] == 'out']; tail = [s for s in ev.stores if not s[5] and s[0] == 'out']
    if any(len(s[5]) > 1 for s in body): raise Unknown('nested loops')
    Ts = set(s[5] for s in body)
    if len(Ts) != 1: raise Unknown('%d coding loops' % len(Ts))
    (k, T), = list(Ts)[0]
    T = dict(T)
    full = expect(per)          # one group, then the terminator
    got = {}
    for base, idx, v, i, g, act in body:
        if idx.get(k, 0) != out_per or any(x not in ('', k) for x in idx): raise Unknown('stride %d of the output' % idx.get(k, 0))
        got[con(idx)] = (v, i, g)
    if T.get('q', 0) != 1: raise Unknown('%s iterations' % fmt(T))
    for m in range(out_per):
        if m not in got: 
            r.ob(False, f.where(f.blocks[0][-1]), name, 'size %s: cell %d of each group is not written by the loop' % (label, m), '', '%s-missing' % name); return
        v, i, g = got.pop(m)
        e = full[m]
        ok = same(v, e if isinstance(e, str) else shift(e, {k: per}), ev)
        r.ob(ok, g.where(i), name, 'size %s: cell %d of each group does not hold %s' % (label, m, show(e)), '', '%s-cell-%s' % (name, g.where(i).split(':')[-1]))
    for m in got: r.ob(None, got[m][2].where(got[m][1]), name, 'size %s: the loop also writes cell %d relative to its group' % (label, m))
    # behind the loop: groups T..q-1 and the rest, relative to T
    d = con(T)                  # T = q + d
    rest = {}
    for base, idx, v, i, g, act in tail:
        x = aadd(idx, {'q': out_per}, -1)
        if not isc(x): raise Unknown('a store behind the loop')
        rest[con(x)] = (v, i, g)
    if d > 0: 
        r.ob(False, f.where(f.blocks[0][-1]), name, 'size %s: the loop codes %d more groups than there are' % (label, d), '', '%s-count' % name); return
    n0 = per * -d + rr
    want = expect(n0)
    for j, e in enumerate(want):
        c = j + out_per * d
        if c not in rest: r.ob(False, f.where(f.blocks[0][-1]), name, 'size %s: output cell %d behind the loop is not written' % (label, j), '', '%s-missing' % name); return
        v, i, g = rest.pop(c)
        ok = same(v, e if isinstance(e, str) else shift(e, aadd({'q': per}, aff(per * d))), ev)
        r.ob(ok, g.where(i), name, 'size %s: cell %d behind the loop does not hold %s' % (label, j, show(e)), '', '%s-cell-%s' % (name, g.where(i).split(':')[-1]))
    for c in rest: r.ob(False, rest[c][2].where(rest[c][1]), name, 'size %s: a cell outside the result is written' % label, '', '%s-outside' % name)

def tables(P, r):
    ev = Ev(P)
    enc, dec = r._tables.get('encode', set()), r._tables.get('decode', set()) | set(t for t, _ in r._scans)
    for a in enc:
        for b in dec:
            x, y = ev.bytes(a), ev.bytes(b)
            G = [g for g in P.globals.values() if g['name'] == b][0]
            w = '%s:%s' % (G['file'], G['line'])
            for k in range(64):
                r.ob(y[x[k]] == k, w, b, 'symbol %d is written as %r, which is read as %d' % (k, chr(x[k]), y[x[k]]), '', 'table-%d' % k)
            for c in range(256):
                if c not in x[:64]: r.ob(y[c] > 63, w, b, 'the byte %d is no symbol but is read as %d' % (c, y[c]), '', 'table-other-%d' % c)
    for t, acc in r._scans:
        for a in enc:
            x = frozenset(ev.bytes(a)[:64])
            f = P.funcs[fn(P, 'base64decode')]
            r.ob(acc == x, f.where(f.blocks[0][-1]), 'base64decode', 'decoding goes on over bytes that are no symbols, or stops at symbols: %s' % sorted(acc ^ x)[:6], '', 'scan')
    if not enc or not dec: r.inconclusive.append('the coding tables were not found')
    r.coverage['tables'] = sorted(enc | dec)

def run(pid, tier):
    P = ir.Program(build.dump('core'))
    r = Result('Coding tables compared as constants (inverse on the 64 symbols, every other byte is no symbol). Coders summarised by stride analysis and bit provenance: for every size, by residue, each output cell is compared with the bits it must hold; sizes computed for buffers are compared as affine functions with the cells written; the callers use the same size for the buffer and for the coder.')
    r._scans = set(); r._tables = {}
    arg = lambda n: ('P', ('arg', n), {})
    for nm in ('base64encode', 'base64decode', 'base64encodelen', 'base64decodelen'):
        if fn(P, nm) is None: raise build.Broken('%s is not defined' % nm)
    coder(P, r, 'base64encode', 'base64encodelen', lambda n: [arg('out'), arg('in'), ('I', n)], enc_expect, 3, 4)
    coder(P, r, 'base64decode', 'base64decodelen', lambda n: [arg('out'), arg('in')], dec_expect, 4, 3)
    tables(P, r)
    import pixels
    pixels.transport(P, r)
    r.coverage.update({'functions': ['base64encode', 'base64decode', 'base64encodelen', 'base64decodelen', 'image_encode', 'image_decode']})
    return r
