"""Python binding (support/python/trax) against the C header (B01): declared functions, structures, callbacks, constants and
macros of _ctypes.py are read from its syntax tree and compared with what the compiler reports for include/trax.h; the calls the
package makes to them are type checked (number of arguments, kinds that can be inferred)."""
import ast, os, re, json, subprocess, tempfile
import build, core

PKG = 'support/python/trax'
PRIM = {'c_bool': ('int', 1, False), 'c_char': ('int', 1, True), 'c_byte': ('int', 1, True), 'c_ubyte': ('int', 1, False), 'c_int8': ('int', 1, True), 'c_uint8': ('int', 1, False),
        'c_short': ('int', 2, True), 'c_ushort': ('int', 2, False), 'c_int16': ('int', 2, True), 'c_uint16': ('int', 2, False),
        'c_int': ('int', 4, True), 'c_uint': ('int', 4, False), 'c_int32': ('int', 4, True), 'c_uint32': ('int', 4, False),
        'c_long': ('int', 8, True), 'c_ulong': ('int', 8, False), 'c_longlong': ('int', 8, True), 'c_ulonglong': ('int', 8, False), 'c_int64': ('int', 8, True), 'c_uint64': ('int', 8, False),
        'c_size_t': ('int', 8, False), 'c_ssize_t': ('int', 8, True), 'c_float': ('float', 4), 'c_double': ('float', 8),
        'c_char_p': ('cstr',), 'c_void_p': ('ptr', ('void',)), 'py_object': ('pyobj',), 'c_wchar_p': ('wstr',)}
CINT = {'char': (1, True), 'signed char': (1, True), 'unsigned char': (1, False), 'short': (2, True), 'unsigned short': (2, False), 'int': (4, True), 'unsigned int': (4, False), 'unsigned': (4, False),
        'long': (8, True), 'unsigned long': (8, False), 'long long': (8, True), 'unsigned long long': (8, False), '_Bool': (1, False)}
VOID = ('void',)

# ------------------------------------------------------------------------------------------------ the C header
class Header(object):
    def __init__(s):
        src = '#include "trax.h"\n'
        r = subprocess.run(['clang-18', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-x', 'c', '-I%s/include' % build.REPO, '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise build.Broken('include/trax.h does not compile: ' + r.stderr[-1000:])
        s.funcs = {}; s.records = {}; s.typedefs = {}; s.lines = {}
        for x in json.loads(r.stdout)['inner']:
            k, n = x['kind'], x.get('name', '')
            if k == 'FunctionDecl':
                ps = [p for p in x.get('inner', []) if p['kind'] == 'ParmVarDecl']
                t = x['type']['qualType']
                s.funcs[n] = (t[:t.index('(')].strip() if not t.startswith('void (*') else t, [(p.get('name', '?'), p['type']['qualType']) for p in ps], bool(x.get('variadic')))
                s.lines[n] = x.get('loc', {}).get('line')
            elif k == 'TypedefDecl': s.typedefs[n] = x['type']['qualType']
            elif k == 'RecordDecl' and x.get('completeDefinition'): s.records[n] = [(f['name'], f['type']['qualType']) for f in x.get('inner', []) if f['kind'] == 'FieldDecl']
            elif k == 'RecordDecl': s.records.setdefault(n, None)
    def type(s, t, depth=0):
        t = re.sub(r'\b(const|volatile|restrict|extern|__restrict)\b', '', t).strip()
        t = re.sub(r'\s+', ' ', t)
        if depth > 20: return ('?', t)
        m = re.match(r'^(.*)\(\*\)\((.*)\)$', t)
        if m:
            ps = [p.strip() for p in m.group(2).split(',')] if m.group(2).strip() not in ('', 'void') else []
            return ('fn', s.type(m.group(1), depth + 1), tuple(s.type(p, depth + 1) for p in ps))
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m: return ('arr', s.type(m.group(1), depth + 1), int(m.group(2)))
        if t.endswith('*'): return ('ptr', s.type(t[:-1], depth + 1))
        if t == 'void': return VOID
        if t in CINT: return ('int',) + CINT[t]
        if t == 'float': return ('float', 4)
        if t == 'double': return ('float', 8)
        if t.startswith(('struct ', 'union ')): return ('struct', t.split(' ', 1)[1])
        if t.startswith('enum '): return ('int', 4, False)
        if t in s.typedefs: return s.type(s.typedefs[t], depth + 1)
        if t in s.records: return ('struct', t)
        return ('?', t)

def show(t):
    k = t[0]
    if k == 'int': return '%sint%d' % ('' if t[2] else 'u', 8 * t[1])
    if k == 'float': return 'float' if t[1] == 4 else 'double'
    if k == 'ptr': return show(t[1]) + '*'
    if k == 'struct': return 'struct ' + t[1]
    if k == 'arr': return '%s[%d]' % (show(t[1]), t[2])
    if k == 'fn': return '%s(*)(%s)' % (show(t[1]), ', '.join(show(x) for x in t[2]))
    return {'cstr': 'char* (c_char_p)', 'pyobj': 'py_object', 'void': 'nothing'}.get(k, str(t[-1]))

def compat(py, c):
    """True / False / None (cannot be compared)"""
    if '?' in (py[0], c[0]): return None
    if c[0] == 'ptr':
        if py[0] == 'cstr': return c[1] == ('int', 1, True) or c[1] == ('int', 1, False)
        if py[0] == 'pyobj': return c[1] == VOID
        if py[0] != 'ptr': return False
        if py[1] == VOID or c[1] == VOID: return True
        return compat(py[1], c[1])
    if py[0] != c[0]: return False
    if c[0] == 'fn':
        if len(py[2]) != len(c[2]): return False
        rs = [compat(py[1], c[1])] + [compat(a, b) for a, b in zip(py[2], c[2])]
        return False if False in rs else None if None in rs else True
    if c[0] == 'arr':
        return compat(py[1], c[1]) if py[2] == c[2] else False
    return py == c

# ------------------------------------------------------------------------------------------------ the Python declarations
class Fn(object):
    def __init__(s, name, line): s.name = name; s.argtypes = None; s.restype = PRIM['c_int']; s.line = line; s.variadic = False; s.given = False
class Macro(object):
    def __init__(s, node): s.node = node

class Decls(object):
    def __init__(s, path):
        s.path = path
        s.env = {}; s.structs = {}; s.odd = []
        try: s.tree = ast.parse(open(path).read())
        except (OSError, SyntaxError) as x: raise build.Broken('%s: %s' % (os.path.basename(path), x))
        s.block(s.tree.body)
    def block(s, body):
        for n in body: s.stmt(n)
    def stmt(s, n):
        if isinstance(n, ast.ClassDef):
            if any((b.id if isinstance(b, ast.Name) else getattr(b, 'attr', '')) in ('Structure', 'Union') for b in n.bases):
                s.env[n.name] = ('struct', n.name[7:] if n.name.startswith('struct_') else n.name)
                s.structs[n.name] = [None, n.lineno]
                for m in n.body:
                    if isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name) and m.targets[0].id == '_fields_': s.fields(n.name, m.value)
                    if isinstance(m, ast.Assign) and isinstance(m.targets[0], ast.Name) and m.targets[0].id == '_pack_': s.odd.append('%s is packed' % n.name)
        elif isinstance(n, ast.If):
            s.block(n.body); s.block(n.orelse)
        elif isinstance(n, ast.Try): s.block(n.body)
        elif isinstance(n, (ast.For, ast.With)): s.block(n.body)
        elif isinstance(n, ast.FunctionDef):
            s.env[n.name] = Macro(n)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name): s.bind(t.id, n.value, n.lineno)
                elif isinstance(t, ast.Attribute):
                    b = s.value(t.value)
                    if isinstance(b, Fn):
                        if t.attr == 'argtypes': b.argtypes = s.types(n.value); b.given = True
                        elif t.attr == 'restype': b.restype = s.type(n.value)
                    elif isinstance(t.value, ast.Name) and t.attr == '_fields_': s.fields(t.value.id, n.value)
    def types(s, v):
        """list of types; None when it is not a literal list"""
        if isinstance(v, (ast.List, ast.Tuple)): return [s.type(x) for x in v.elts]
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
            for x, k in ((v.left, v.right), (v.right, v.left)):
                k = s.value(k)
                if isinstance(k, int) and s.types(x) is not None: return s.types(x) * k
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Add):
            a, b = s.types(v.left), s.types(v.right)
            if a is not None and b is not None: return a + b
        return None
    def fields(s, name, v):
        r = s.structs.setdefault(name, [None, v.lineno])
        if isinstance(v, (ast.List, ast.Tuple)):
            out = []
            for e in v.elts:
                if isinstance(e, ast.Tuple) and len(e.elts) == 2 and isinstance(e.elts[0], ast.Constant): out.append((e.elts[0].value, s.type(e.elts[1])))
                else: out.append(('?', ('?', ast.unparse(e))))
            r[0] = out
    def bind(s, name, v, line):
        if isinstance(v, ast.Call):
            a = [x.value for x in v.args if isinstance(x, ast.Constant) and isinstance(x.value, str)]
            f = v.func
            if isinstance(f, ast.Attribute) and f.attr in ('get', '__getitem__', 'getattr') and a and '_lib' in ast.unparse(f.value):
                s.env[name] = Fn(a[0], line); return
            if isinstance(f, ast.Name) and f.id == '_variadic_function':
                fn = Fn(name, line); fn.variadic = True; fn.restype = s.type(v.args[1]); fn.argtypes = [s.type(x) for x in v.args[2].elts]; s.env[name] = fn; return
            if isinstance(f, ast.Name) and f.id == 'getattr' and len(a) == 1: s.env[name] = Fn(a[0], line); return
        if isinstance(v, ast.Attribute) and '_lib' in ast.unparse(v.value) and v.attr.startswith('trax_'):
            s.env[name] = Fn(v.attr, line); return
        x = s.value(v)
        if x is None:
            t = s.type(v)
            if t[0] != '?': x = t
            elif isinstance(v, ast.Constant): x = None
            else: return
        s.env[name] = x
    def value(s, v):
        """constant value, type or function an expression denotes; None when unknown"""
        if isinstance(v, ast.Constant): return v.value if isinstance(v.value, (int, str, float)) and not isinstance(v.value, bool) else None
        if isinstance(v, ast.Name): return s.env.get(v.id)
        if isinstance(v, ast.UnaryOp):
            x = s.value(v.operand)
            if isinstance(x, (int, float)): return -x if isinstance(v.op, ast.USub) else ~x if isinstance(v.op, ast.Invert) else x if isinstance(v.op, ast.UAdd) else None
        if isinstance(v, ast.BinOp):
            a, b = s.value(v.left), s.value(v.right)
            if isinstance(a, int) and isinstance(b, int):
                o = type(v.op).__name__
                return {'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b, 'BitXor': lambda: a ^ b}.get(o, lambda: None)()
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'int' and len(v.args) == 1: return s.value(v.args[0])
        return None
    def type(s, v):
        if isinstance(v, ast.Constant) and v.value is None: return VOID
        n = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'ctypes' else None
        if n is not None:
            x = s.env.get(n) if isinstance(v, ast.Name) else None
            if isinstance(x, tuple): return x
            if n in PRIM: return PRIM[n]
            return ('?', n)
        if isinstance(v, ast.Call):
            f = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else ''
            if f == 'POINTER' and v.args: return ('ptr', s.type(v.args[0]))
            if f in ('CFUNCTYPE', 'WINFUNCTYPE', 'PYFUNCTYPE'): return ('fn', s.type(v.args[0]), tuple(s.type(x) for x in v.args[1:]))
            if f == 'UNCHECKED':
                t = s.type(v.args[0])
                return t if t[0] in ('int', 'float', 'cstr') else ('ptr', VOID)
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
            k = s.value(v.right)
            if isinstance(k, int): return ('arr', s.type(v.left), k)
            k = s.value(v.left)
            if isinstance(k, int): return ('arr', s.type(v.right), k)
        return ('?', ast.unparse(v)[:40])

# ------------------------------------------------------------------------------------------------ folding of macros
def fold(n, env, fn=None):
    """value of a Python expression over constants; raises KeyError when it is not constant"""
    if isinstance(n, ast.Constant): return n.value
    if isinstance(n, ast.Name):
        x = env[n.id]
        if isinstance(x, (Macro, Fn, tuple)): raise KeyError(n.id)
        return x
    if isinstance(n, ast.BoolOp):
        v = None
        for x in n.values:
            v = fold(x, env)
            if isinstance(n.op, ast.And) and not v or isinstance(n.op, ast.Or) and v: return v
        return v
    if isinstance(n, ast.UnaryOp):
        v = fold(n.operand, env)
        return {'USub': lambda: -v, 'Not': lambda: not v, 'Invert': lambda: ~v, 'UAdd': lambda: v}[type(n.op).__name__]()
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left, env), fold(n.right, env)
        return {'BitOr': lambda: a | b, 'BitAnd': lambda: a & b, 'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'LShift': lambda: a << b, 'RShift': lambda: a >> b}[type(n.op).__name__]()
    if isinstance(n, ast.IfExp): return fold(n.body if fold(n.test, env) else n.orelse, env)
    if isinstance(n, ast.Compare):
        l = fold(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            r = fold(r, env)
            if not {'Eq': lambda: l == r, 'NotEq': lambda: l != r, 'Lt': lambda: l < r, 'LtE': lambda: l <= r, 'Gt': lambda: l > r, 'GtE': lambda: l >= r, 'In': lambda: l in r, 'NotIn': lambda: l not in r, 'Is': lambda: l == r, 'IsNot': lambda: l != r}[type(op).__name__](): return False
            l = r
        return True
    if isinstance(n, (ast.Tuple, ast.List)): return [fold(x, env) for x in n.elts]
    if isinstance(n, ast.Dict): return {fold(k, env): fold(v, env) for k, v in zip(n.keys, n.values)}
    if isinstance(n, ast.Subscript): return fold(n.value, env)[fold(n.slice, env)]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and n.args:
        return fold(n.func.value, env).get(*[fold(a, env) for a in n.args])
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('bool', 'int', 'abs', 'len', 'min', 'max') and not n.keywords and n.func.id not in env:
        return {'bool': bool, 'int': int, 'abs': abs, 'len': len, 'min': min, 'max': max}[n.func.id](*[fold(a, env) for a in n.args])
    raise KeyError(ast.unparse(n)[:60])

class Ret(Exception):
    def __init__(s, v): s.v = v
def fold_body(body, env):
    """value a pure function body returns for constant arguments; raises KeyError when it is not constant"""
    def run(ss):
        for n in ss:
            if isinstance(n, ast.Return): raise Ret(fold(n.value, env) if n.value is not None else None)
            if isinstance(n, ast.If): run(n.body if fold(n.test, env) else n.orelse)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): env[n.targets[0].id] = fold(n.value, env)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): env[n.target.id] = fold(ast.BinOp(ast.Name(n.target.id), n.op, n.value), env)
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Pass): pass
            else: raise KeyError(ast.unparse(n)[:60])
    env = dict(env)
    try: run(body)
    except Ret as r: return r.v
    return None

def c_macros(names, dom):
    """what the C macros yield (names: name -> domain), as folded by the compiler"""
    src = '#include "trax.h"\n' + ''.join('const int m_%s[] = { %s };\n' % (n, ', '.join('%s(%s)' % (n, ', '.join('%d' % z for z in d)) for d in dom[n])) for n in names)
    r = subprocess.run(['clang-18', '-S', '-emit-llvm', '-O0', '-x', 'c', '-I%s/include' % build.REPO, '-', '-o', '-'], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode: return None
    out = {}
    for m in re.finditer(r'@m_(\w+) = .*?constant \[\d+ x i32\] (\[.*?\]|zeroinitializer)', r.stdout):
        out[m.group(1)] = [int(x) for x in re.findall(r'i32 (-?\d+)', m.group(2)[1:])] if m.group(2) != 'zeroinitializer' else [0] * len(dom[m.group(1)])
    return out

def function_macros():
    r = subprocess.run(['clang-18', '-E', '-dM', '-x', 'c', '-', '-I%s/include' % build.REPO], input='#include "trax.h"\n', stdout=subprocess.PIPE, text=True)
    return {m[0]: len(m[1].split(',')) for m in re.findall(r'#define (TRAX_\w+)\(([^)]*)\)', r.stdout)}

def string_macros():
    r = subprocess.run(['clang-18', '-E', '-dM', '-x', 'c', '-', '-I%s/include' % build.REPO], input='#include "trax.h"\n', stdout=subprocess.PIPE, text=True)
    return dict(re.findall(r'#define (TRAX_\w+) "(.*)"$', r.stdout, re.M))

# ------------------------------------------------------------------------------------------------ calls
class Calls(ast.NodeVisitor):
    """type checks the calls a module makes to native functions"""
    def __init__(s, mod, path, D, report, names):
        s.mod = mod; s.path = path; s.D = D; s.report = report
        s.imported = {}; s.stack = []; s.cls = []; s.checked = 0; s.names = names
    def run(s, tree):
        s.tree = tree
        s.attrs = {}
        for c in ast.walk(tree):
            if isinstance(c, ast.ClassDef):
                d = s.attrs[c.name] = {}
                for n in ast.walk(c):
                    if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self': d.setdefault(t.attr, []).append(n.value)
        s.modassign = s.assigns(tree.body)
        s.visit(tree)
    def assigns(s, body):
        d = {}
        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)): continue
                if isinstance(c, ast.Assign):
                    for t in c.targets:
                        for e in ([t] if isinstance(t, ast.Name) else [x for x in ast.walk(t) if isinstance(x, ast.Name)] if isinstance(t, (ast.Tuple, ast.List)) else []):
                            d.setdefault(e.id, []).append(c.value if e is t else None)
                elif isinstance(c, (ast.AugAssign, ast.AnnAssign)) and isinstance(c.target, ast.Name): d.setdefault(c.target.id, []).append(None)
                elif isinstance(c, (ast.For, ast.comprehension)):
                    for x in ast.walk(c.target):
                        if isinstance(x, ast.Name): d.setdefault(x.id, []).append(None)
                elif isinstance(c, ast.withitem) and c.optional_vars is not None:
                    for x in ast.walk(c.optional_vars):
                        if isinstance(x, ast.Name): d.setdefault(x.id, []).append(None)
                walk(c)
        walk(ast.Module(body=body, type_ignores=[]))
        return d
    def visit_ImportFrom(s, n):
        if n.module == '_ctypes' and n.level == 1 or n.module in ('trax._ctypes',):
            for a in n.names:
                if a.name == '*': continue
                s.imported[a.asname or a.name] = a.name
                if a.name not in s.D.env and a.name not in PRIM and a.name not in ('POINTER', 'CFUNCTYPE', 'byref', 'cast', 'Structure'):
                    s.report(False, '%s:%d' % (s.path, n.lineno), 'import', '%s imports %s, which _ctypes.py does not define' % (s.mod, a.name))
                else: s.report(True, '', '', '')
    def visit_ClassDef(s, n): s.cls.append(n.name); s.generic_visit(n); s.cls.pop()
    def visit_FunctionDef(s, n):
        s.stack.append((n, s.assigns(n.body), set(a.arg for a in n.args.args + n.args.kwonlyargs) | set(x.arg for x in (n.args.vararg, n.args.kwarg) if x), []))
        s.generic_visit(n); s.stack.pop()
    def visit_Lambda(s, n):
        s.stack.append((n, {}, set(a.arg for a in n.args.args), [])); s.generic_visit(n); s.stack.pop()
    def guarded(s, n):
        t = ast.unparse(n)
        for fr in s.stack:
            for x in ast.walk(fr[0]):
                if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)) and t in ast.unparse(x.test): return True
        return False
    def fn_of(s, n):
        if isinstance(n, ast.Name) and n.id in s.imported and not any(n.id in fr[2] or n.id in fr[1] for fr in s.stack):
            f = s.D.env.get(s.imported[n.id]);
            return f if isinstance(f, Fn) else None
        return None
    def ctype(s, n):
        """the ctypes type an expression names"""
        if isinstance(n, ast.Name) and n.id in s.imported: n = ast.Name(id=s.imported[n.id])
        elif isinstance(n, ast.Name) and n.id in s.names: return s.names[n.id]
        if isinstance(n, ast.Name) and isinstance(s.D.env.get(n.id), tuple): return s.D.env[n.id]
        t = s.D.type(n)
        return t if t[0] != '?' else None
    def infer(s, n, depth=0):
        """kinds a value can have: set of 'none', 'int', 'float', 'str', 'bytes', ('inst', T), ('ref', T), or None when unknown"""
        if depth > 6: return None
        if isinstance(n, ast.Constant):
            v = n.value
            return {'none'} if v is None else {'bool'} if isinstance(v, bool) else {type(v).__name__} if isinstance(v, (int, float, str, bytes)) else None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return s.infer(n.operand, depth + 1)
        if isinstance(n, ast.JoinedStr): return {'str'}
        if isinstance(n, ast.IfExp):
            a, b = s.infer(n.body, depth + 1), s.infer(n.orelse, depth + 1)
            return (a or {'?'}) | (b or {'?'})
        if isinstance(n, ast.Call):
            f = s.fn_of(n.func)
            if f is not None:
                t = f.restype
                return {'int'} if t[0] == 'int' else {'float'} if t[0] == 'float' else {'none'} if t == VOID else {'bytes?'} if t[0] == 'cstr' else {('inst', t)} if t != ('ptr', VOID) else {'addr'}
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
            if nm == 'byref' and len(n.args) == 1:
                x = s.infer(n.args[0], depth + 1)
                if x and len(x) == 1:
                    y = next(iter(x))
                    if isinstance(y, tuple) and y[0] == 'inst': return {('ref', y[1])}
                return None
            if nm in ('len', 'int', 'ord') and isinstance(n.func, ast.Name): return {'int'}
            if nm == 'str' and isinstance(n.func, ast.Name): return {'str'}
            if nm == 'float' and isinstance(n.func, ast.Name): return {'float'}
            if nm == 'cast' and len(n.args) == 2:
                t = s.ctype(n.args[1]); return {('inst', t)} if t else None
            if isinstance(n.func, ast.Attribute) and nm == 'encode' and n.args and isinstance(n.args[0], ast.Constant) and str(n.args[0].value).lower().replace('-', '') in ('utf8', 'ascii', 'latin1'): return {'bytes'}
            if isinstance(n.func, ast.Attribute) and nm == 'format' and isinstance(n.func.value, ast.Constant): return {'str'}
            t = s.ctype(n.func)
            if t is not None: return {('inst', t)}
            return None
        if isinstance(n, ast.Name):
            for fr in reversed(s.stack):
                if n.id in fr[2]: return None
                if n.id in fr[1]:
                    L = fr[1][n.id]
                    if len(L) == 1 and L[0] is not None: return s.infer(L[0], depth + 1)
                    return None
            x = s.D.env.get(s.imported.get(n.id))
            if isinstance(x, int): return {'int'}
            if isinstance(x, str): return {'str'}
            return None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and s.cls:
            L = s.attrs.get(s.cls[-1], {}).get(n.attr, [])
            if len(L) == 1 and L[0] is not None:
                # the assignment may be in another function: only literals and calls are followed
                return s.infer(L[0], depth + 1) if not isinstance(L[0], ast.Name) else None
            return None
        return None
    def fits(s, k, t):
        """True / False / None"""
        if k == '?': return None
        if t[0] == '?': return None
        if t[0] == 'int': return k in ('int', 'bool', 'addr') or (isinstance(k, tuple) and k[0] == 'inst' and k[1] == t)
        if t[0] == 'float': return k in ('int', 'float', 'bool') or k == ('inst', t)
        if t[0] == 'cstr': return k in ('bytes', 'bytes?', 'none', 'int', 'addr') or isinstance(k, tuple) and (k[1] in (t, ('ptr', VOID)) or k[1] == ('ptr', ('int', 1, True)) or k[1][0] == 'arr')
        if t[0] == 'pyobj': return True
        if t == ('ptr', VOID): return k in ('bytes', 'bytes?', 'str', 'none', 'int', 'addr', 'bool') or isinstance(k, tuple) and (k[0] == 'ref' or k[1][0] in ('ptr', 'cstr', 'fn', 'arr', 'pyobj'))
        if t[0] == 'ptr':
            if k == 'none': return True
            if isinstance(k, tuple): return (k[0] == 'ref' and k[1] == t[1]) or (k[0] == 'inst' and (k[1] == t or k[1][0] == 'arr' and k[1][1] == t[1]))
            return False
        if t[0] in ('fn', 'struct', 'arr'): return isinstance(k, tuple) and k[0] == 'inst' and k[1] == t
        return None
    def visit_Call(s, n):
        f = s.fn_of(n.func)
        if f is not None and f.argtypes is not None:
            s.checked += 1
            where = '%s:%d' % (s.path, n.lineno)
            if not any(isinstance(a, ast.Starred) for a in n.args) and not n.keywords:
                ok = len(n.args) == len(f.argtypes) or f.variadic and len(n.args) >= len(f.argtypes)
                s.report(ok, where, f.name, 'call of %s with %d arguments, the function has %d' % (f.name, len(n.args), len(f.argtypes)))
                if ok:
                    for i, (a, t) in enumerate(zip(n.args, f.argtypes)):
                        ks = s.infer(a)
                        if not ks: s.report(None, where, f.name, 'kind of argument %d of %s' % (i + 1, f.name)); continue
                        for k in sorted(ks, key=repr):
                            if k == 'none' and len(ks) > 1 and s.guarded(a): continue
                            r = s.fits(k, t)
                            s.report(r, where, f.name, 'argument %d of %s can be %s, the function takes %s' % (i + 1, f.name, k if isinstance(k, str) else '%s %s' % ('a reference to' if k[0] == 'ref' else 'a', show(k[1])), show(t)))
        s.generic_visit(n)

def files():
    d = os.path.join(build.REPO, PKG)
    if not os.path.isdir(d): raise build.Broken('the Python package is gone')
    return [f for f in sorted(os.listdir(d)) if f.endswith('.py')]

def run(pid, tier):
    from result import Result, Violation
    r = Result('Declarations of the Python binding (syntax tree of _ctypes.py) against the C header (compiler syntax tree and macro values); type check of every call the package makes to a native function.')
    H = Header()
    D = Decls(os.path.join(build.REPO, PKG, '_ctypes.py'))
    rel = PKG + '/_ctypes.py'
    def ob(ok, where, func, what):
        r.obligations += 1
        if ok is True: r.discharged += 1
        elif ok is False: r.violations.append(Violation(where, func, what, [], key='%s: %s' % (func, what)))
        elif what: r.inconclusive.append('%s: %s' % (where, what))
    nf = 0
    for name, f in sorted(D.env.items(), key=lambda x: x[0]):
        if not isinstance(f, Fn): continue
        w = '%s:%d' % (rel, f.line)
        if name != f.name and name.startswith('trax_') and f.name in H.funcs and name in H.funcs: ob(False, w, name, '%s is bound to the native function %s' % (name, f.name))
        nf += 1
        c = H.funcs.get(f.name)
        ob(c is not None, w, f.name, 'function %s is not in the C header' % f.name)
        if c is None: continue
        if f.argtypes is not None:
            n = len(c[1])
            ok = len(f.argtypes) == n
            ob(ok, w, f.name, '%s is declared with %d parameters, the header has %d' % (f.name, len(f.argtypes), n))
            if ok:
                for i, (p, (pn, ct)) in enumerate(zip(f.argtypes, c[1])):
                    t = H.type(ct)
                    ob(compat(p, t), w, f.name, 'parameter %d (%s) of %s is declared %s, the header has %s' % (i + 1, pn, f.name, show(p), show(t)))
        elif c[1]: ob(None if f.given else False, w, f.name, '%s is declared without its parameters, the header has %d' % (f.name, len(c[1])))
        t = H.type(c[0])
        ob(compat(f.restype, t), w, f.name, 'result of %s is declared %s, the header has %s' % (f.name, show(f.restype), show(t)))
    ns = 0
    for name, (fields, line) in sorted(D.structs.items()):
        tag = name[7:] if name.startswith('struct_') else name
        if not tag.startswith('trax_'): continue
        w = '%s:%d' % (rel, line); ns += 1
        ob(tag in H.records, w, name, 'structure %s is not in the C header' % tag)
        if tag not in H.records or fields is None: continue
        cf = H.records[tag]
        if cf is None or (not cf and fields == []): ob(None if fields else True, w, name, 'structure %s is opaque in the header' % tag); continue
        ok = [x[0] for x in fields] == [x[0] for x in cf]
        ob(ok, w, name, 'fields of %s are (%s), the header has (%s)' % (tag, ', '.join(x[0] for x in fields), ', '.join(x[0] for x in cf)))
        if ok:
            for (fnm, p), (_, ct) in zip(fields, cf):
                t = H.type(ct)
                ob(compat(p, t), w, name, 'field %s of %s is declared %s, the header has %s' % (fnm, tag, show(p), show(t)))
    for o in D.odd: ob(False, rel, 'layout', o)
    for name, v in sorted(D.env.items()):
        if isinstance(v, tuple) and v[0] == 'fn' and name in H.typedefs:
            t = H.type(H.typedefs[name])
            ob(compat(v, t), rel, name, 'callback %s is declared %s, the header has %s' % (name, show(v), show(t)))
    C = core.consts(); S = string_macros(); ncst = 0
    for name, v in sorted(D.env.items()):
        if not name.startswith('TRAX_'): continue
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            ncst += 1
            have = C.get(name, S.get(name))
            if have is None: ob(False, rel, name, 'constant %s is not in the C header' % name)
            else: ob(have == v, rel, name, 'constant %s is %r, the header has %r' % (name, v, have))
    fmac = function_macros()
    macros = sorted(n for n, v in D.env.items() if n.startswith('TRAX_') and isinstance(v, Macro) and 1 <= len(v.node.args.args) <= 2)
    dom = {}
    for n in macros:
        k = len(D.env[n].node.args.args)
        ob(fmac.get(n) == k, '%s:%d' % (rel, D.env[n].node.lineno), n, 'macro %s takes %d arguments, the header has %s' % (n, k, fmac.get(n, 'no such macro')))
        dom[n] = [(x,) for x in range(-1, 10)] if k == 1 else [(x, y) for x in range(0, 9) for y in range(0, 9)]
    macros = [n for n in macros if fmac.get(n) == len(D.env[n].node.args.args)]
    cm = c_macros(macros, dom) if macros else {}
    for n in macros:
        node = D.env[n].node
        if cm is None or n not in cm: ob(None, rel, n, 'macro %s' % n); continue
        try: got = [fold_body(node.body, dict(D.env, **{p.arg: x for p, x in zip(node.args.args, xs)})) for xs in dom[n]]
        except (KeyError, TypeError): ob(None, rel, n, 'macro %s is not a constant expression' % n); continue
        bad = [(x, a, b) for x, a, b in zip(dom[n], got, cm[n]) if a != b]
        ob(not bad, '%s:%d' % (rel, node.lineno), n, 'macro %s differs from the header for %s' % (n, ', '.join('%s (%s instead of %d)' % (', '.join(map(str, x)), a, b) for x, a, b in bad[:3])))
    # calls
    trees = {}
    for f in files():
        if f == '_ctypes.py': continue
        try: trees[f] = ast.parse(open(os.path.join(build.REPO, PKG, f)).read())
        except SyntaxError as x: raise build.Broken('%s: %s' % (f, x))
    names = {}
    for f, t in trees.items():      # module level names of ctypes types, such as trax_image_p
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                x = D.type(n.value)
                if x[0] != '?': names[n.targets[0].id] = x
    nc = 0; und = 0
    for f, t in sorted(trees.items()):
        def rep(ok, where, func, what):
            nonlocal und
            if ok is None: und += 1; return     # kinds that cannot be inferred are not obligations of this check
            ob(ok, where, func, what)
        c = Calls(f[:-3], PKG + '/' + f, D, rep, names)
        c.run(t); nc += c.checked
    if nf < 40 or ns < 6: raise build.Broken('only %d functions and %d structures are declared in _ctypes.py' % (nf, ns))
    r.coverage = {'functions': nf, 'structures': ns, 'constants': ncst, 'macros': sorted(macros), 'call_sites': nc, 'arguments_without_static_kind': und, 'rule': 'same parameters, results, fields, callbacks, values; calls pass the declared number and kinds of arguments'}
    r.assumptions = ['ctypes lays structures out like the C compiler of the platform (no _pack_)', 'arguments whose kind cannot be inferred from the syntax tree are left to ctypes']
    r.samples = [{'function': n, 'header': '%s(%s)' % (H.funcs[n][0], ', '.join(x[1] for x in H.funcs[n][1]))} for n in sorted(x for x in H.funcs if x.startswith('trax_'))[:4]]
    return r

if __name__ == '__main__':
    r = run('B01', 'quick')
    print(r.obligations, r.discharged, r.coverage)
    for v in r.violations: print(v.where, v.what)
    for x in r.inconclusive: print('?', x)
