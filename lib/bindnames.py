"""B02: names and numbers of the Python and Octave/MATLAB bindings.

Every coding function of a binding is propagated through with one constant at a time (each name it compares with, each
code, each subset of codes); conditional constant propagation yields the finite tables name -> number and number -> name,
which have to be inverse to each other and equal to the enumerators of the C header of the same name.  Where a coding
function is used, the slice of the value tells which native parameter or field it belongs to."""
import ast, os, re
import build, ir, core, absint, libc, pybind
import terms as T
from terms import *
from absint import Interp, State, Budget, UNDEF, NULL
from result import Result, Violation

FAM = {'Region': 'TRAX_REGION_', 'Image': 'TRAX_IMAGE_', 'ImageChannel': 'TRAX_CHANNEL_'}
KINDS = {'Region': ('SPECIAL', 'RECTANGLE', 'POLYGON', 'MASK'), 'Image': ('PATH', 'URL', 'MEMORY', 'BUFFER'), 'ImageChannel': ('COLOR', 'DEPTH', 'IR')}
STATUS = ('ERROR', 'OK', 'HELLO', 'INITIALIZE', 'FRAME', 'QUIT', 'STATE')

# ------------------------------------------------------------------------------------------------ Python
class Unknown(Exception): pass
class Raised(Exception): pass
class Ret(Exception):
    def __init__(s, v): s.v = v
class Loop(Exception):
    def __init__(s, brk): s.brk = brk
class Cls(object):
    def __init__(s, name, node, mod): s.name = name; s.node = node; s.mod = mod
    def find(s, attr, seen=()):
        for n in s.node.body:
            if isinstance(n, (ast.FunctionDef,)) and n.name == attr: return ('fn', s, n)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == attr: return ('val', s.mod.ev(n.value, {}))
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr and n.value is not None: return ('val', s.mod.ev(n.value, {}))
        for b in s.node.bases:
            try: c = s.mod.ev(b, {})
            except Unknown: continue
            if isinstance(c, Cls) and c.name not in seen:
                r = c.find(attr, seen + (s.name,))
                if r: return r
        return None
class Inst(object):
    def __init__(s, cls): s.cls = cls
class Bound(object):
    def __init__(s, node, mod, slf=None): s.node = node; s.mod = mod; s.slf = slf
class Given(object):
    """an unknown value, with the constant one native query about it returns"""
    def __init__(s, facts=None): s.facts = facts or {}

OPS = {'BitOr': lambda a, b: a | b, 'BitAnd': lambda a, b: a & b, 'BitXor': lambda a, b: a ^ b, 'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b,
       'LShift': lambda a, b: a << b, 'RShift': lambda a, b: a >> b, 'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b}
CMP = {'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
       'In': lambda a, b: a in b, 'NotIn': lambda a, b: a not in b, 'Is': lambda a, b: a is b or a == b, 'IsNot': lambda a, b: not (a is b or a == b)}
PURE = {'len': len, 'int': int, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict, 'sorted': sorted, 'min': min, 'max': max, 'abs': abs,
        'sum': sum, 'any': any, 'all': all, 'zip': lambda *a: list(zip(*a)), 'range': lambda *a: list(range(*a)), 'enumerate': lambda *a: list(enumerate(*a)), 'reversed': lambda x: list(reversed(x))}

class Mod(object):
    """constant propagation over the syntax tree of one module of the package"""
    def __init__(s, pkg, name, tree): s.pkg = pkg; s.name = name; s.tree = tree; s.top = {}; s.busy = set(); s.index(tree.body)
    def index(s, body):
        for n in body:
            if isinstance(n, (ast.ClassDef, ast.FunctionDef)): s.top[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name): s.top[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None: s.top[n.target.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                for a in n.names: s.top[a.asname or a.name] = ('import', (n.module or '').split('.')[-1], a.name)
            elif isinstance(n, ast.Import): pass
            elif isinstance(n, (ast.Try, ast.If)): s.index(n.body)
    def glob(s, name):
        x = s.top.get(name)
        if x is None:
            if name in ('True', 'False', 'None'): return {'True': True, 'False': False, 'None': None}[name]
            raise Unknown(name)
        if name in s.busy: raise Unknown(name)
        if isinstance(x, ast.ClassDef): return Cls(name, x, s)
        if isinstance(x, ast.FunctionDef): return Bound(x, s)
        if isinstance(x, tuple):
            m = s.pkg.module(x[1])
            if m is None: raise Unknown(name)
            if x[2] == '*': raise Unknown(name)
            return m.glob(x[2])
        s.busy.add(name)
        try: return s.ev(x, {})
        finally: s.busy.discard(name)
    def ev(s, n, env):
        s.pkg.fuel()
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name):
            if n.id in env: return env[n.id]
            return s.glob(n.id)
        if isinstance(n, ast.JoinedStr): return Given()
        if isinstance(n, ast.BoolOp):
            v = None
            for x in n.values:
                v = s.ev(x, env)
                b = s.truth(v)
                if isinstance(n.op, ast.And) and not b or isinstance(n.op, ast.Or) and b: return v
            return v
        if isinstance(n, ast.UnaryOp):
            v = s.ev(n.operand, env)
            if isinstance(n.op, ast.Not): return not s.truth(v)
            if not isinstance(v, int): raise Unknown()
            return {'USub': -v, 'Invert': ~v, 'UAdd': v}[type(n.op).__name__]
        if isinstance(n, ast.BinOp):
            a, b = s.ev(n.left, env), s.ev(n.right, env)
            if isinstance(a, Given) or isinstance(b, Given): return Given()
            try: return OPS[type(n.op).__name__](a, b)
            except (KeyError, TypeError, ValueError): raise Unknown()
        if isinstance(n, ast.IfExp): return s.ev(n.body if s.truth(s.ev(n.test, env)) else n.orelse, env)
        if isinstance(n, ast.Compare):
            l = s.ev(n.left, env)
            for op, r in zip(n.ops, n.comparators):
                r = s.ev(r, env)
                if isinstance(l, Given) or isinstance(r, Given): raise Unknown()
                try: ok = CMP[type(op).__name__](l, r)
                except (KeyError, TypeError): raise Unknown()
                if not ok: return False
                l = r
            return True
        if isinstance(n, ast.List): return [s.ev(x, env) for x in n.elts]
        if isinstance(n, ast.Tuple): return tuple(s.ev(x, env) for x in n.elts)
        if isinstance(n, ast.Set): return set(s.ev(x, env) for x in n.elts)
        if isinstance(n, ast.Dict):
            if None in n.keys: raise Unknown()
            return {s.ev(k, env): s.ev(v, env) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Subscript):
            v = s.ev(n.value, env); k = s.ev(n.slice, env)
            if isinstance(v, Given) or isinstance(k, Given): raise Unknown()
            try: return v[k]
            except (KeyError, IndexError): raise Raised()
            except TypeError: raise Unknown()
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            out = []
            def gen(i, e):
                if i == len(n.generators):
                    out.append((s.ev(n.key, e), s.ev(n.value, e)) if isinstance(n, ast.DictComp) else s.ev(n.elt, e)); return
                g = n.generators[i]
                for x in s.iter(s.ev(g.iter, e)):
                    e2 = dict(e); s.bind(g.target, x, e2)
                    if all(s.truth(s.ev(c, e2)) for c in g.ifs): gen(i + 1, e2)
            gen(0, env)
            return dict(out) if isinstance(n, ast.DictComp) else set(out) if isinstance(n, ast.SetComp) else out
        if isinstance(n, ast.Attribute):
            v = s.ev(n.value, env)
            return s.attr(v, n.attr)
        if isinstance(n, ast.Call): return s.call(n, env)
        raise Unknown(ast.unparse(n)[:40])
    def attr(s, v, a):
        if isinstance(v, (Cls, Inst)):
            c = v if isinstance(v, Cls) else v.cls
            if a == '__name__' and isinstance(v, Cls): return v.name
            r = c.find(a)
            if r is None: raise Unknown(a)
            if r[0] == 'val': return r[1]
            deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in r[2].decorator_list]
            if 'staticmethod' in deco: return Bound(r[2], r[1].mod)
            if 'classmethod' in deco: return Bound(r[2], r[1].mod, c)
            if 'property' in deco: return s.apply(Bound(r[2], r[1].mod, v), [], {})
            return Bound(r[2], r[1].mod, v if isinstance(v, Inst) else None)
        if isinstance(v, Given): return Given()
        raise Unknown(a)
    def truth(s, v):
        if isinstance(v, (Given, Bound)): raise Unknown()
        return bool(v)
    def iter(s, v):
        if isinstance(v, dict): return list(v)
        if isinstance(v, (list, tuple, set, frozenset, str)): return list(v)
        raise Unknown()
    def bind(s, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = s.iter(v)
            if len(v) != len(t.elts): raise Unknown()
            for a, b in zip(t.elts, v): s.bind(a, b, env)
        elif isinstance(t, ast.Subscript):
            c = s.ev(t.value, env)
            if not isinstance(c, (dict, list)): raise Unknown()
            c[s.ev(t.slice, env)] = v
        elif isinstance(t, ast.Attribute): pass
        else: raise Unknown()
    def call(s, n, env):
        kw = {k.arg: s.ev(k.value, env) for k in n.keywords if k.arg}
        if isinstance(n.func, ast.Attribute):
            v = s.ev(n.func.value, env) if not (isinstance(n.func.value, ast.Call) and getattr(n.func.value.func, 'id', '') == 'super') else Given()
            args = [s.ev(a, env) for a in n.args]
            a = n.func.attr
            if isinstance(v, list) and a in ('append', 'extend', 'insert'):
                if any(isinstance(x, Given) for x in args) and a != 'append': raise Unknown()
                getattr(v, a)(*args); return None
            if isinstance(v, set) and a in ('add', 'update'): getattr(v, a)(*args); return None
            if isinstance(v, dict) and a in ('get', 'items', 'keys', 'values'):
                if any(isinstance(x, Given) for x in args): raise Unknown()
                r = getattr(v, a)(*args); return r if a == 'get' else list(r)
            if isinstance(v, (str, bytes)) and a == 'format': return Given()
            if isinstance(v, str) and a in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'join', 'replace', 'encode', 'title', 'capitalize'): 
                if any(isinstance(x, Given) for x in args): return Given()
                return getattr(v, a)(*args)
            if isinstance(v, Given): return Given()
            f = s.attr(v, a)
            return s.apply(f, args, kw)
        if isinstance(n.func, ast.Name):
            args = [s.ev(a, env) for a in n.args]
            if n.func.id in env: f = env[n.func.id]
            elif n.func.id in s.top:
                x = s.top[n.func.id]
                if isinstance(x, tuple) and x[1] == '_ctypes':
                    for q in args:
                        if isinstance(q, Given) and x[2] in q.facts: return q.facts[x[2]]
                    return Given()
                f = s.glob(n.func.id)
            elif n.func.id == 'isinstance': raise Unknown()
            elif n.func.id in PURE:
                if any(isinstance(x, (Given, Cls, Inst)) for x in args): raise Unknown()
                try: return PURE[n.func.id](*args)
                except (TypeError, ValueError): raise Raised()
            else: raise Unknown(n.func.id)
            return s.apply(f, args, kw)
        raise Unknown()
    def apply(s, f, args, kw):
        if isinstance(f, Cls): return Inst(f)
        if isinstance(f, Given): return Given()
        if not isinstance(f, Bound): raise Unknown()
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.slf is not None: args = [f.slf] + args
        if a.vararg or a.kwarg or len(args) > len(names): raise Unknown()
        env = dict(zip(names, args))
        for k, v in kw.items(): env[k] = v
        d = a.defaults
        for i, x in enumerate(names):
            if x not in env:
                j = i - (len(names) - len(d))
                if j < 0: raise Unknown()
                env[x] = f.mod.ev(d[j], {})
        s.pkg.depth += 1
        if s.pkg.depth > 30: raise Unknown('recursion')
        try: f.mod.body(f.node.body, env)
        except Ret as r: return r.v
        finally: s.pkg.depth -= 1
        return None
    def body(s, ss, env):
        for n in ss:
            s.pkg.fuel()
            if isinstance(n, ast.Return): raise Ret(s.ev(n.value, env) if n.value is not None else None)
            elif isinstance(n, ast.If): s.body(n.body if s.truth(s.ev(n.test, env)) else n.orelse, env)
            elif isinstance(n, ast.Assign):
                v = s.ev(n.value, env)
                for t in n.targets: s.bind(t, v, env)
            elif isinstance(n, ast.AnnAssign):
                if n.value is not None: s.bind(n.target, s.ev(n.value, env), env)
            elif isinstance(n, ast.AugAssign):
                if not isinstance(n.target, ast.Name): raise Unknown()
                env[n.target.id] = s.ev(ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), env)
            elif isinstance(n, ast.Expr): s.ev(n.value, env)
            elif isinstance(n, ast.For):
                try:
                    for x in s.iter(s.ev(n.iter, env)):
                        s.bind(n.target, x, env)
                        try: s.body(n.body, env)
                        except Loop as l:
                            if l.brk: raise
                    else: s.body(n.orelse, env)
                except Loop: pass
            elif isinstance(n, ast.While):
                try:
                    while s.truth(s.ev(n.test, env)):
                        try: s.body(n.body, env)
                        except Loop as l:
                            if l.brk: raise
                except Loop: pass
            elif isinstance(n, ast.Break): raise Loop(True)
            elif isinstance(n, ast.Continue): raise Loop(False)
            elif isinstance(n, ast.Raise): raise Raised()
            elif isinstance(n, (ast.Pass, ast.Assert, ast.Import, ast.Global)): pass
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m = s.pkg.module((n.module or '__init__').split('.')[-1] or '__init__')
                    try: env[a.asname or a.name] = m.glob(a.name) if m else Given()
                    except Unknown: env[a.asname or a.name] = Given()
            elif isinstance(n, ast.Try):
                try: s.body(n.body, env)
                except Raised:
                    if not n.handlers: raise
                    s.body(n.handlers[0].body, env)
                s.body(n.finalbody, env)
            elif isinstance(n, ast.Match):
                v = s.ev(n.subject, env)
                if isinstance(v, Given): raise Unknown()
                for c in n.cases:
                    if s.pattern(c.pattern, v, env) and (c.guard is None or s.truth(s.ev(c.guard, env))): s.body(c.body, env); break
            else: raise Unknown(type(n).__name__)
    def pattern(s, p, v, env):
        if isinstance(p, ast.MatchValue): return s.ev(p.value, env) == v
        if isinstance(p, ast.MatchOr): return any(s.pattern(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not s.pattern(p.pattern, v, env): return False
            if p.name: env[p.name] = v
            return True
        raise Unknown()

class Pkg(object):
    def __init__(s):
        s.mods = {}; s.depth = 0; s.left = 0
    def fuel(s):
        s.left -= 1
        if s.left < 0: raise Unknown('budget')
    def module(s, name):
        if name in ('', 'trax'): name = '__init__'
        if name not in s.mods:
            p = os.path.join(build.REPO, pybind.PKG, name + '.py')
            if name == '_ctypes' or not os.path.exists(p): s.mods[name] = None
            else:
                try: s.mods[name] = Mod(s, name, ast.parse(open(p).read()))
                except SyntaxError as x: raise build.Broken('%s.py: %s' % (name, x))
        return s.mods[name]
    def find(s, cls):
        s.left = 20000
        for n in ('__init__', 'region', 'image', 'server', 'client'):
            m = s.module(n)
            if m and isinstance(m.top.get(cls), ast.ClassDef): return Cls(cls, m.top[cls], m)
        raise build.Broken('Python class trax.%s is gone' % cls)
    def get(s, c, a):
        """value of an attribute, property or method without arguments of an object"""
        s.left = 20000; s.depth = 0
        try:
            v = c.mod.attr(Inst(c), a)
            return s.run(v, []) if isinstance(v, Bound) else ('value', v)
        except Raised: return ('raise',)
        except Unknown as x: return ('unknown', str(x))
    def run(s, f, args):
        """('value', v) | ('raise',) | ('unknown', why)"""
        s.left = 20000; s.depth = 0
        try: return ('value', f.mod.apply(f, args, {}))
        except Raised: return ('raise',)
        except Unknown as x: return ('unknown', str(x))
        except RecursionError: return ('unknown', 'recursion')

def subsets(xs):
    out = [()]
    for x in xs: out += [o + (x,) for o in out]
    return out

def python(r):
    C = core.consts(); P = Pkg()
    rel = pybind.PKG
    tab = r.coverage.setdefault('python', {})
    def ob(ok, cls, f, what):
        where = '%s/%s.py:%d' % (rel, cls.mod.name, f.node.lineno if isinstance(f, Bound) else cls.node.lineno)
        r.obligations += 1
        if ok is True: r.discharged += 1
        elif ok is False: r.violations.append(Violation(where, cls.name, what, [], key='%s: %s' % (cls.name, what)))
        else: r.inconclusive.append('%s: %s' % (where, what))
    def method(cls, name, need=True):
        try: x = cls.mod.attr(cls, name)
        except Unknown: x = None
        if not isinstance(x, Bound):
            if need: raise build.Broken('trax.%s.%s is gone' % (cls.name, name))
            return None
        return x
    for fam, pre in sorted(FAM.items()):
        cls = P.find(fam)
        names = {}
        for k in KINDS[fam]:
            try: v = cls.find(k)
            except Unknown: v = ('?',)
            if v is None: raise build.Broken('trax.%s.%s is gone' % (fam, k))
            if v[0] != 'val' or not isinstance(v[1], str): ob(None, cls, None, 'name of %s' % k); continue
            names[k] = v[1]
        ob(len(set(names.values())) == len(names), cls, None, 'two kinds of %s share a name: %s' % (fam, sorted(names.values())))
        code = {names[k]: C[pre + k] for k in names}; tab[fam] = code
        enc = method(cls, 'encode'); encl = method(cls, 'encode_list'); decl = method(cls, 'decode_list'); dec = method(cls, 'decode', False)
        for k, n in sorted(names.items()):
            x = P.run(enc, [n])
            ob(None if x[0] == 'unknown' else x == ('value', C[pre + k]), cls, enc, '%s.encode(%r) is %s, %s%s is %d' % (fam, n, x[1] if x[0] == 'value' else 'refused' if x[0] == 'raise' else '?', pre, k, C[pre + k]))
            if dec:
                x = P.run(dec, [C[pre + k]])
                ob(None if x[0] == 'unknown' or isinstance(x[-1], Given) else x == ('value', n), cls, dec, '%s.decode(%d) is %s, %s%s is called %r' % (fam, C[pre + k], repr(x[1]) if x[0] == 'value' else 'refused', pre, k, n))
        for S in subsets(sorted(names)):
            m = sum(C[pre + k] for k in S); want = sorted(names[k] for k in S)
            x = P.run(decl, [m])
            got = sorted(x[1]) if x[0] == 'value' and isinstance(x[1], (list, tuple, set)) and all(isinstance(y, str) for y in x[1]) else None
            ob(None if x[0] == 'unknown' or x[0] == 'value' and got is None else got == want, cls, decl, '%s.decode_list(%d) reports %s instead of %s' % (fam, m, got, want))
            x = P.run(encl, [[names[k] for k in S]])
            ob(None if x[0] == 'unknown' or isinstance(x[-1], Given) else x == ('value', m), cls, encl, '%s.encode_list(%s) is %s instead of %d' % (fam, want, x[1] if x[0] == 'value' else 'refused', m))
        wrap = method(cls, 'wrap', False)
        if wrap:
            q = {'Region': 'trax_region_get_type', 'Image': 'trax_image_get_type'}[fam]
            for k, n in sorted(names.items()):
                x = P.run(wrap, [Given({q: C[pre + k]})])
                c = x[1].cls if x[0] == 'value' and isinstance(x[1], Inst) else None
                if x[0] == 'unknown': ob(None, cls, wrap, 'class for kind %s' % k); continue
                ob(c is not None, cls, wrap, '%s.wrap gives no object for kind %s%s' % (fam, pre, k))
                if c is None: continue
                t = P.get(c, 'type')
                ob(None if t[0] == 'unknown' else t == ('value', n), c, None, 'an object of kind %s%s is wrapped as %s, whose type() is %s instead of %r' % (pre, k, c.name, repr(t[1]) if t[0] == 'value' else 'refused', n))
    # status codes
    cls = P.find('TraxStatus'); dec = method(cls, 'decode')
    for k in STATUS:
        if 'TRAX_' + k not in C: raise build.Broken('TRAX_%s is gone' % k)
        v = cls.find(k)
        if v is None: raise build.Broken('trax.TraxStatus.%s is gone' % k)
        x = P.run(dec, [C['TRAX_' + k]])
        ob(None if x[0] == 'unknown' or v[0] != 'val' else x == ('value', v[1]), cls, dec, 'TraxStatus.decode(%d) is %s, TRAX_%s is %r' % (C['TRAX_' + k], repr(x[1]) if x[0] == 'value' else 'refused', k, v[1]))
    # module constants that repeat a C constant, and the tables indexed with them
    m = P.module('image')
    if m is None: raise build.Broken('trax/image.py is gone')
    groups = {}
    for name, x in sorted(m.top.items()):
        if isinstance(x, ast.AST) and re.match(r'IMAGE_(MEMORY|BUFFER)_\w+$', name) and 'TRAX_' + name in C:
            groups.setdefault(name.split('_')[1], []).append(name)
            try: P.left = 1000; v = m.glob(name)
            except Unknown: v = None
            r.obligations += 1
            if v == C['TRAX_' + name]: r.discharged += 1
            elif v is None: r.inconclusive.append('%s/image.py: %s' % (rel, name))
            else: r.violations.append(Violation('%s/image.py:%d' % (rel, getattr(x, 'lineno', 0)), 'module', '%s is %r, TRAX_%s is %d' % (name, v, name, C['TRAX_' + name]), [], key='%s value' % name))
    for name, x in sorted(m.top.items()):
        if isinstance(x, ast.Dict) and name.startswith('_image_'):
            try: P.left = 1000; v = m.ev(x, {})
            except Unknown: continue
            g = [k for k in ('MEMORY', 'BUFFER') if k.lower() in name]
            if not g: continue
            have = sorted(n for n in C if re.match(r'TRAX_IMAGE_%s_\w+$' % g[0], n) and not n.endswith('ILLEGAL'))
            for n in have:
                r.obligations += 1
                if C[n] in v: r.discharged += 1
                else: r.violations.append(Violation('%s/image.py:%d' % (rel, x.lineno), 'module', 'the table %s has no entry for %s (%d)' % (name, n, C[n]), [], key='%s %s' % (name, n)))
            ch = {'TRAX_IMAGE_MEMORY_GRAY8': 1, 'TRAX_IMAGE_MEMORY_GRAY16': 1, 'TRAX_IMAGE_MEMORY_RGB': 3}
            if name.endswith('_ch'):
                for n in have:
                    if n in ch and C[n] in v and isinstance(v[C[n]], int):
                        r.obligations += 1
                        if v[C[n]] == ch[n]: r.discharged += 1
                        else: r.violations.append(Violation('%s/image.py:%d' % (rel, x.lineno), 'module', 'the table %s gives %d channels for %s' % (name, v[C[n]], n), [], key='%s %s value' % (name, n)))
    # uses: the family of a coded value is the family of the native parameter or field
    uses = 0
    H = pybind.Header() if hasattr(pybind, 'Header') else None
    PARAM = {'region_formats': 'Region', 'image_formats': 'Image', 'channels': 'ImageChannel', 'format_region': 'Region', 'format_image': 'Image'}
    def family(n, enc):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in enc and isinstance(n.func.value, ast.Name) and n.func.value.id in FAM: return n.func.value.id
        return None
    for mn in ('server', 'client', '__init__', 'image', 'region'):
        mod = P.module(mn)
        if mod is None: continue
        for fn in ast.walk(mod.tree):
            if not isinstance(fn, (ast.FunctionDef,)): continue
            local = {}
            for n in ast.walk(fn):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): local.setdefault(n.targets[0].id, []).append(n.value)
            for n in ast.walk(fn):
                if not isinstance(n, ast.Call): continue
                fname = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
                if fname == 'trax_metadata_create' and H is not None:
                    for (pn, _), a in zip(H.funcs['trax_metadata_create'][1], n.args):
                        if pn not in PARAM: continue
                        V = [a] if not (isinstance(a, ast.Name) and a.id in local) else local[a.id]
                        fs = set(family(v, ('encode_list', 'encode')) for v in V)
                        r.obligations += 1; uses += 1
                        if fs == {PARAM[pn]}: r.discharged += 1
                        elif None in fs: r.inconclusive.append('%s/%s.py:%d: how %s is coded' % (rel, mn, n.lineno, pn))
                        else: r.violations.append(Violation('%s/%s.py:%d' % (rel, mn, n.lineno), fn.name, 'the %s of the tracker are coded by %s' % (pn, ', '.join(sorted(fs))), [], key='%s %s' % (fn.name, pn)))
                f = family(n, ('decode_list', 'decode'))
                if f and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Name) and len(local.get(a.id, [])) == 1: a = local[a.id][0]
                    if isinstance(a, ast.Attribute) and a.attr in PARAM:
                        r.obligations += 1; uses += 1
                        if PARAM[a.attr] == f: r.discharged += 1
                        else: r.violations.append(Violation('%s/%s.py:%d' % (rel, mn, n.lineno), fn.name, 'the field %s is reported by %s.decode_list' % (a.attr, f), [], key='%s %s' % (fn.name, a.attr)))
    r.coverage['python_uses'] = uses

# ------------------------------------------------------------------------------------------------ Octave / MATLAB
NAME = ('ext', 'name')
MEX = {'get_region_code': 'Region', 'get_image_code': 'Image', 'get_channel_code': 'ImageChannel'}
DEC = {'decode_region': 'Region', 'decode_image': 'Image', 'decode_channels': 'ImageChannel'}
class Mex(core.Base):
    """the name under examination is one of the constants it can be compared with, or none of them"""
    steps = 20000; inline_depth = 8
    def __init__(s, name=None):
        core.Base.__init__(s); s.cur = name; s.lits = set(); s.lost = []
        for n in ('strcmp', 'strcasecmp'): s.models[n] = s.cmp
    def is_name(s, p, st=None): return is_ptr(p) and (p[1] == NAME or st is not None and p[1] in st.mon.get('copies', ()))
    def copied(s, st, p):
        st.mon = dict(st.mon); st.mon['copies'] = st.mon.get('copies', frozenset()) | {p[1]}
    def answer(s, st, I, a, b):
        for x, y in ((a, b), (b, a)):
            if s.is_name(x, st):
                t = libc.cstr(I, st, y)
                if t is None: return None
                t = t.decode('latin1'); s.lits.add(t)
                return t == s.cur
        return None
    def cmp(s, I, st, fr, ins, args):
        e = s.answer(st, I, args[0], args[1])
        if e is None: return libc.m_strcmp(I, st, fr, ins, args)
        return [(st, 0 if e else 1)]
    def should_inline(s, I, st, f, depth): return not (f.file or '').startswith('/usr/')
    def on_call(s, I, st, fr, ins, name, args):
        if not name: return None
        f = s.prog.funcs.get(name); d = f.dem if f else name
        if 'operator==' in d.split('(')[0] and 'char' in d and len(args) >= 2:
            e = s.answer(st, I, args[0], args[1])
            if e is not None: return [(st, 1 if e else 0)]
        if 'operator!=' in d.split('(')[0] and 'char' in d and len(args) >= 2:
            e = s.answer(st, I, args[0], args[1])
            if e is not None: return [(st, 0 if e else 1)]
        m = re.search(r'basic_string<char[^(]*>::(~?\w+|operator\[\]|operator=)\(', d)
        if m and len(args) >= 2 and s.is_name(args[1], st) and m.group(1) in ('basic_string', 'operator=') and is_ptr(args[0]):
            s.copied(st, args[0]); return [(st, args[0] if m.group(1) == 'operator=' else UNDEF)]
        if m and args and s.is_name(args[0], st):
            op = m.group(1)
            if op == 'compare' and len(args) == 2:
                e = s.answer(st, I, args[0], args[1])
                if e is not None: return [(st, 0 if e else 1)]
            if op in ('c_str', 'data'): return [(st, ('p', NAME, 0))]
            if op == 'basic_string': return None
            return [(st, I.fresh(st, (fr.uid, ins.id, op)) if ins.t and ins.t != 'ptr' else UNDEF)] if op in ('begin', 'end', 'size', 'length', 'empty') else None
        if f is not None and f.src == 'set_string' and args:
            t = libc.cstr(I, st, args[0])
            st.mon = dict(st.mon); st.mon['said'] = st.mon.get('said', ()) + ((t.decode('latin1') if t is not None else None),)
            return [(st, I.typed(st, I.fresh(st, (fr.uid, ins.id, 'a')), 'ptr', 8))]
        if d.startswith('mexErrMsg') or name.startswith('mexErrMsg'):
            st.mon = dict(st.mon); st.mon['error'] = True
            return []
        if 'std::transform<' in d: return [(st, UNDEF)]
        return None
    def on_unknown_call(s, I, st, fr, ins, name, args): return None
    def partition_key(s, st): return (st.mon.get('said'), st.mon.get('error'))

def code_of(P, f, name):
    """what the function yields for a name: ('value', n) | ('refused',) | ('unknown',)"""
    c = Mex(name); c.prog = P
    st = State(); st.objs[NAME] = ('ext', None, 'ext', 'name'); st.mem[NAME] = {}
    I, outs = core.run(P, c, f.name, st, [('p', NAME, 0)] * len(f.args))
    if outs is None: return ('unknown',), c.lits
    vals = set()
    for t, v, k in outs:
        if k != 'ret': continue
        vals.add(v if is_int(v) else None)
    if not vals: return ('refused',), c.lits
    if None in vals or len(vals) > 1: return ('unknown',), c.lits
    return ('value', vals.pop()), c.lits

def names_of(P, f, code):
    c = Mex(); c.prog = P
    I, outs = core.run(P, c, f.name, State(), [code])
    if outs is None: return None
    said = set(t.mon.get('said', ()) for t, v, k in outs if k == 'ret')
    if len(said) != 1: return None
    x = said.pop()
    return None if None in x else sorted(x)

def slice_calls(f, v, depth=0, seen=None):
    """names of the functions whose results a value is computed from"""
    seen = set() if seen is None else seen
    out = set()
    if v.__class__ is not list and v.__class__ is not tuple or not v or v[0] != '%' or v[1] in seen: return out
    seen.add(v[1])
    for b in f.blocks:
        for ins in b:
            if ins.id != v[1]: continue
            if ins.op in ('call', 'invoke'):
                cal = ins.d['callee']
                out.add((cal[1] if cal and cal[0] in ('f', '@', 'g') else None, ins))
            else:
                for o in ins.o:
                    for q in ([o] if o and o[0].__class__ is str else o if o.__class__ in (list, tuple) else []):
                        if q.__class__ in (list, tuple): out |= slice_calls(f, q, depth + 1, seen)
    return out

def octave(r):
    C = core.consts()
    for g in ('mats', 'matc'):
        P = ir.Program(build.dump(g))
        by = {}
        for f in P.funcs.values():
            if not f.decl: by.setdefault(f.src, f)
        def ob(ok, f, what):
            w = '%s:%s' % (ir.short(f.file), f.line)
            r.obligations += 1
            if ok is True: r.discharged += 1
            elif ok is False:
                if not any(v.key == '%s: %s' % (f.src, what) for v in r.violations): r.violations.append(Violation(w, f.src, what, [], key='%s: %s' % (f.src, what)))
            else: r.inconclusive.append('%s: %s' % (w, what))
        tables = {}; whole = {}
        if g == 'mats':
            for fn, fam in sorted(MEX.items()):
                f = by.get(fn)
                if f is None: r.inconclusive.append('%s is gone' % fn); continue
                pre = FAM[fam]; table = {}; bad = False
                _, lits = code_of(P, f, None)
                todo = set(lits) | set(k.lower() for k in KINDS[fam]); done = set()
                while todo - done:
                    n = sorted(todo - done)[0]; done.add(n)
                    x, l = code_of(P, f, n); todo |= l
                    if x[0] == 'unknown': ob(None, f, 'code of %r' % n); bad = True; continue
                    if x[0] == 'value': table[n] = x[1]
                    if n.upper() in KINDS[fam] and x[0] == 'value': ob(x[1] == C[pre + n.upper()], f, '%s(%r) is %d, %s%s is %d' % (fn, n, x[1], pre, n.upper(), C[pre + n.upper()]))
                    elif x[0] == 'value': ob(x[1] in [C[pre + k] for k in KINDS[fam]], f, '%s(%r) is %d, which is no %s' % (fn, n, x[1], fam))
                tables[fam] = table; whole[fam] = not bad
                x, _ = code_of(P, f, None)
                if x[0] == 'value': ob(False, f, '%s accepts any name as %d' % (fn, x[1]))
            for fn, fam in sorted(DEC.items()):
                f = by.get(fn)
                if f is None: r.inconclusive.append('%s is gone' % fn); continue
                pre = FAM[fam]; table = tables.get(fam)
                for S in subsets(KINDS[fam]):
                    m = sum(C[pre + k] for k in S)
                    got = names_of(P, f, m)
                    if got is None: ob(None, f, 'names of %d' % m); continue
                    if table is None: continue
                    back = 0
                    for n in got:
                        ob(True if n in table else False if whole[fam] else None, f, '%s reports %r, which is not accepted as input' % (fn, n))
                        back |= table.get(n, 0)
                    # kinds that have a name as input are reported
                    want = sum(C[pre + k] for k in S if C[pre + k] in table.values())
                    if whole[fam] and all(n in table for n in got): ob(back == want and len(set(got)) == len(got), f, '%s(%d) reports %s, which denotes %d' % (fn, m, got, back))
            r.coverage['octave'] = tables
        # uses
        uses = 0
        for f in P.funcs.values():
            if f.decl or (f.file or '').startswith('/usr/'): continue
            for b in f.blocks:
                for ins in b:
                    if ins.op not in ('call', 'invoke'): continue
                    cal = ins.d.get('callee')
                    nm = cal[1] if cal and cal[0] != '%' else None
                    t = P.funcs.get(nm)
                    if t is None: continue
                    if t.dem.startswith('trax::Metadata::Metadata(int, int, int'):
                        args = ins.o[1:4]
                        for a, fam in zip(args, ('Region', 'Image', 'ImageChannel')):
                            for cn, ci in slice_calls(f, a):
                                cf = P.funcs.get(cn)
                                if cf is None or cf.src != 'get_flags': continue
                                ps = [o for o in ci.o if o and o[0] not in ('%',) and o[1] in P.funcs] if ci.o else []
                                for o in ps:
                                    src = P.funcs[o[1]].src
                                    if src in MEX: uses += 1; ob(MEX[src] == fam, f, 'the %s of the tracker are read by %s' % ({'Region': 'region formats', 'Image': 'image formats', 'ImageChannel': 'channels'}[fam], src))
                    if t.src in DEC:
                        for cn, ci in slice_calls(f, ins.o[0]):
                            cf = P.funcs.get(cn)
                            fam = {'region_formats': 'Region', 'image_formats': 'Image', 'channels': 'ImageChannel'}.get(re.sub(r'^.*::(\w+)\(.*$', r'\1', cf.dem) if cf else '')
                            if fam: uses += 1; ob(DEC[t.src] == fam, f, 'the %s of the tracker are reported by %s' % (re.sub(r'^.*::(\w+)\(.*$', r'\1', cf.dem), t.src))
        r.coverage.setdefault('octave_uses', {})[g] = uses

def run(pid, tier):
    r = Result('Conditional constant propagation through every name/number function of the bindings (Python syntax tree, LLVM IR of the Octave helpers) yields finite tables. Rule: the tables are inverse, agree with the C enumerator of the same name, and every use codes the value of its own family.')
    python(r)
    try: octave(r)
    except (KeyError, IndexError, TypeError, AttributeError) as e:
        if os.environ.get('TRAX_DEBUG_CHECK'): raise
        r.inconclusive.append('octave: %r' % (e,))
    r.assumptions = ['std::transform with tolower only changes the case of a name', 'mexErrMsgTxt does not return']
    return r
