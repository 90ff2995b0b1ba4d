"""Abstract integer terms: polynomials over interned atoms, with a bit-mask normal form for flag words.

Values used by the interpreter
  int                      an integer constant
  ('P', ((mono, coef)...)) a non-constant polynomial; mono is a tuple of atom numbers, () is the constant
  ('p', obj, off)          pointer: object name, byte offset (int or polynomial)
  ('f', name)              function
  NULL                     null pointer
  UNDEF                    never-initialised value
  ('fl', x)                floating constant;  floats that are not constant are atoms (polynomials of one atom)
"""
INF = float('inf')
NULL = ('null',)
UNDEF = ('undef',)

_atoms = {}
_names = []

def atom(key):
    n = _atoms.get(key)
    if n is None:
        n = len(_names)
        _atoms[key] = n
        _names.append(key)
    return n

def atom_key(n):
    return _names[n]

def A(key):
    """value consisting of one atom"""
    return ('P', (((atom(key),), 1),))

def is_int(v):
    return v.__class__ is int

def is_poly(v):
    return v.__class__ is tuple and v[0] == 'P'

def is_num(v):
    return v.__class__ is int or (v.__class__ is tuple and v[0] == 'P')

def is_ptr(v):
    return v.__class__ is tuple and v[0] == 'p'

def to_dict(v):
    if v.__class__ is int:
        return {(): v} if v else {}
    return dict(v[1])

def from_dict(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return 0
    if len(items) == 1 and items[0][0] == ():
        return items[0][1]
    items.sort()
    return ('P', tuple(items))

def add(a, b, k=1):
    if a.__class__ is int and b.__class__ is int:
        return a + k * b
    d = to_dict(a)
    for m, c in (to_dict(b)).items():
        d[m] = d.get(m, 0) + k * c
    return from_dict(d)

def sub(a, b):
    return add(a, b, -1)

def mul(a, b):
    if a.__class__ is int and b.__class__ is int:
        return a * b
    d = {}
    da, db = to_dict(a), to_dict(b)
    if len(da) * len(db) > 64:
        return None
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = tuple(sorted(m1 + m2))
            if len(m) > 4:
                return None
            d[m] = d.get(m, 0) + c1 * c2
    return from_dict(d)

def const_part(v):
    if v.__class__ is int:
        return v
    for m, c in v[1]:
        if m == ():
            return c
    return 0

def split_const(v):
    """(v - const, const)"""
    if v.__class__ is int:
        return 0, v
    c = const_part(v)
    return (add(v, -c), c) if c else (v, 0)

def single_atom(v):
    """atom number if v is exactly one atom with coefficient 1"""
    if v.__class__ is tuple and v[0] == 'P' and len(v[1]) == 1:
        m, c = v[1][0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None

def atoms_of(v):
    if v.__class__ is tuple:
        if v[0] == 'P':
            s = set()
            for m, c in v[1]:
                s.update(m)
            return s
        if v[0] == 'p':
            return atoms_of(v[2])
    return set()

def subst(v, mp):
    """replace atoms (number -> value) in a numeric value; returns None if not expressible"""
    if v.__class__ is int or not is_poly(v):
        return v
    if not any(a in mp for a in atoms_of(v)):
        return v
    r = 0
    for m, c in v[1]:
        t = c
        for a in m:
            x = mp.get(a)
            if x is None:
                x = ('P', (((a,), 1),))
            if not is_num(x):
                return None
            t = mul(t, x)
            if t is None:
                return None
        r = add(r, t)
    return r

def show(v, depth=0):
    if v.__class__ is int:
        return str(v)
    if v == NULL:
        return 'NULL'
    if v.__class__ is not tuple:
        return str(v)
    if v[0] == 'P':
        out = []
        for m, c in v[1]:
            t = '*'.join(show_atom(a, depth + 1) for a in m)
            if not t:
                out.append(str(c))
            elif c == 1:
                out.append(t)
            else:
                out.append('%d*%s' % (c, t))
        return ' + '.join(out)
    if v[0] == 'p':
        return '&%s[%s]' % (show_obj(v[1]), show(v[2], depth + 1))
    return '/'.join(str(x) for x in v)

def show_obj(o):
    if isinstance(o, tuple):
        return '.'.join(str(x) for x in o[:3])
    return str(o)

def show_atom(n, depth=0):
    k = _names[n]
    if depth > 3:
        return '..'
    if k[0] == 'op':
        return '%s(%s)' % (k[1], ','.join(show(x, depth + 1) if not isinstance(x, str) else x for x in k[2:]))
    if k[0] == 'bits':
        return '(%s&%d|%d)' % (show(k[1], depth + 1), k[2], k[3])
    if k[0] == 'cmp':
        return '(%s %s %s)' % (show(k[2], depth + 1), k[1], show(k[3], depth + 1))
    if k[0] == 'init':
        return '%s@%s' % (show_obj(k[1]), show(k[2], depth + 1) if not isinstance(k[2], str) else k[2])
    return '#%s' % (k[-1] if isinstance(k[-1], str) else n)

_deep = {}
def deep_atoms(n):
    """all atoms an atom is built from, itself included (objects named by terms too)"""
    r = _deep.get(n)
    if r is None:
        out = {n}
        def walk(x):
            if x.__class__ is tuple:
                if x and x[0] == 'P' and len(x) == 2:
                    for m, c in x[1]:
                        for a in m:
                            if a not in out: out.update(deep_atoms(a))
                else:
                    for y in x: walk(y)
        k = _names[n]
        if k[0] not in ('J', 'sym'):
            for x in k[1:]: walk(x)
        r = _deep[n] = frozenset(out)
    return r

def deep_of(v):
    """deep atoms of a value or object name"""
    out = set()
    def walk(x):
        if x.__class__ is tuple:
            if x and x[0] == 'P' and len(x) == 2:
                for m, c in x[1]:
                    for a in m: out.update(deep_atoms(a))
            elif x and x[0] in ('heap', 'stack'): return
            else:
                for y in x: walk(y)
    walk(v)
    return out
