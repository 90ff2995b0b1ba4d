"""R01, R02: effect analysis over the whole-library call graph.  Which mutable globals, thread-hostile library functions
and output channels can be reached from the public interface?"""
import build, ir
from result import Result

HOSTILE = {k: 'keeps its state in a static buffer' for k in ('strtok', 'localtime', 'gmtime', 'asctime', 'ctime', 'strerror', 'tmpnam', 'inet_ntoa', 'gethostbyname', 'getpwnam', 'basename', 'dirname', 'readdir', 'ttyname', 'l64a', 'ecvt', 'fcvt', 'gcvt', 'wcstombs', 'mblen', 'mbtowc', 'wctomb', 'lgamma')}
HOSTILE.update({k: 'draws from a process-wide generator' for k in ('rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'srand48', 'mrand48')})
HOSTILE.update({k: 'changes process-wide state' for k in ('setlocale', 'setenv', 'putenv', 'unsetenv', 'chdir', 'umask', 'signal', 'sigaction', 'alarm', 'setbuf', 'setvbuf', 'dup2', 'freopen')})
STDIO = ('printf', 'puts', 'putchar', 'vprintf', 'putchar_unlocked', '__printf_chk', '__vprintf_chk')
FDOUT = {'write': 0, 'send': 0, 'sendto': 0, 'writev': 0, 'dprintf': 0, 'vdprintf': 0}
FILEOUT = {'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fwrite': 3, 'fputs_unlocked': 1}
READONLY = ('strlen', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp', 'strchr', 'strrchr', 'strstr', 'strdup', 'printf', 'puts', 'fileno', 'fputs', 'atoi', 'atof', 'strspn', 'strcspn', 'strpbrk', 'memchr')

def callee(I):
    c = I.d.get('callee')
    return c[1] if c and c[0] == 'f' else None
def calls(f):
    for B in f.blocks:
        for I in B:
            if I.op in ('call', 'invoke'): yield I
def refs(v, out):
    """global names in an operand"""
    if isinstance(v, (list, tuple)) and v:
        if v[0] in ('g', 'f') and len(v) > 1 and isinstance(v[1], str): out.add(v[1])
        else:
            for x in v: refs(x, out)
    return out

def graph(P):
    """f -> set of functions it calls, or whose address it takes"""
    g = {}
    for n, f in P.funcs.items():
        s = g.setdefault(n, set())
        if f.decl: continue
        for B in f.blocks:
            for I in B:
                for x in refs([I.o, I.d.get('callee')], set()):
                    if x in P.funcs: s.add(x)
    # tables of function pointers
    for n, G in P.globals.items():
        if 'init' in G: G['_f'] = [x for x in refs(G['init'], set()) if x in P.funcs]
    for n, f in P.funcs.items():
        if f.decl: continue
        for B in f.blocks:
            for I in B:
                for x in refs([I.o], set()):
                    if x in P.globals: g[n].update(P.globals[x].get('_f', ()))
    return g
def reach(g, roots, without=()):
    """name -> predecessor on a shortest path from the roots"""
    seen = {}; work = []
    for r in roots:
        if r in g and r not in without and r not in seen: seen[r] = None; work.append(r)
    while work:
        x = work.pop(0)
        for y in sorted(g.get(x, ())):
            if y not in seen and y not in without: seen[y] = x; work.append(y)
    return seen
def path(seen, x):
    p = []
    while x is not None: p.append(x); x = seen[x]
    return list(reversed(p))
def name(P, n):
    f = P.funcs.get(n)
    return f.src if f is not None and not f.decl else n

def public(P):
    return sorted(n for n, f in P.funcs.items() if not f.decl and (n.startswith('trax_') or (n.startswith('_ZN') and '4trax' in n[:8])))

def writes(P, f):
    """(instruction, global, how) for every way f can change a mutable global"""
    # values derived from the address of a global
    der = {}
    def base(v):
        if not isinstance(v, (list, tuple)) or not v: return None
        if v[0] == 'g': return v[1]
        if v[0] == '%': return der.get(v[1])
        if v[0] == 'gep': return base(v[1])
        return None
    for rnd in range(3):
        for B in f.blocks:
            for I in B:
                if I.op in ('gep', 'getelementptr', 'bitcast', 'addrspacecast') and I.o:
                    b = base(I.o[0])
                    if b: der[I.id] = b
                elif I.op == 'phi':
                    for v, p in I.o:
                        b = base(v)
                        if b: der[I.id] = b
                elif I.op == 'select':
                    for v in I.o[1:]:
                        b = base(v)
                        if b: der[I.id] = b
    out = []
    for B in f.blocks:
        for I in B:
            if I.op == 'store':
                b = base(I.o[1])
                if b: out.append((I, b, 'is assigned'))
                b = base(I.o[0])
                if b: out.append((I, b, 'has its address stored'))
            elif I.op in ('atomicrmw', 'cmpxchg'):
                b = base(I.o[0])
                if b: out.append((I, b, 'is updated'))
            elif I.op in ('call', 'invoke'):
                nm = callee(I) or ''
                if nm in READONLY or nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime'): continue
                for k, v in enumerate(I.o):
                    b = base(v)
                    if not b: continue
                    if nm.startswith('llvm.memcpy') or nm in ('memcpy', 'strcpy', 'memmove', 'strcat', 'strncpy', 'fwrite', 'write', 'send', 'snprintf', 'sprintf', 'vsnprintf'):
                        if nm in ('fwrite', 'write', 'send') or k != 0: continue
                    if nm in ('__cxa_atexit', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort'): continue
                    out.append((I, b, 'is passed to %s' % (nm or 'a function pointer')))
            elif I.op == 'ret' and I.o:
                b = base(I.o[0])
                if b: out.append((I, b, 'has its address returned'))
    return out

def r01(pid, tier):
    r = Result('Effect analysis: every definition of a mutable global (static locals included) in the C library and its C++ wrapper, every instruction that can change one and every call of a library function with hidden state, filtered by reachability from the public functions over the call graph (address-taken functions count as called).')
    stats = dict(globals=0, functions=0, calls=0, writes=0)
    for grp in ('core', 'cxx'):
        P = ir.Program(build.dump(grp))
        g = graph(P); seen = reach(g, public(P))
        mut = {}
        for n, G in P.globals.items():
            if G.get('decl') or G.get('const') or G.get('tls') or n.startswith(('_ZTV', '_ZTI', '_ZTS', '_ZGV', 'llvm.')): continue
            mut[n] = G
        stats['globals'] += len(mut)
        hit = set()
        for n in sorted(seen):
            f = P.funcs[n]
            if f.decl: continue
            stats['functions'] += 1
            for I in calls(f):
                stats['calls'] += 1
                nm = callee(I)
                if nm in HOSTILE:
                    r.ob(False, f.where(I), f.src, 'calls %s, which %s' % (nm, HOSTILE[nm]), ['reached by ' + ' > '.join(name(P, x) for x in path(seen, n))])
            for I, b, how in writes(P, f):
                if b not in mut: continue
                G = mut[b]; stats['writes'] += 1
                guarded = any(k.startswith('_ZGV') and b[2:] in k for k in P.globals)
                what = 'mutable global %s %s' % (G.get('srcname') or b, how)
                hit.add(b)
                if guarded and how.startswith('is passed'): r.inconclusive.append('%s %s: %s (guarded initialisation)' % (f.where(I), f.src, what)); continue
                # a pointer that only reads: passed to a function of this library whose parameter is never written through is fine
                if how.startswith('is passed') and callee(I) in P.funcs and G.get('type', '').startswith('[') and readonly_param(P, callee(I), I, b): continue
                r.ob(False, f.where(I), f.src, what, ['reached by ' + ' > '.join(name(P, x) for x in path(seen, n))])
        for b in mut:
            if b not in hit: r.ob(True, mut[b].get('file', ''), b, 'never changed from the public interface')
        r.obligations += len(seen); r.discharged += len(seen)
        if not seen: raise build.Broken('no public functions in ' + grp)
    r.coverage = dict(('effect_' + k, v) for k, v in stats.items())
    r.assumptions = ['the documented region rasterisation flags are process-wide on purpose', 'the C library functions called are those glibc documents as thread-safe unless listed in lib/structure.py']
    r.sample({'rule': 'a public function must not reach an instruction that changes a mutable global', 'globals': stats['globals'], 'functions': stats['functions']})
    return r

def readonly_param(P, nm, I, b, depth=0):
    f = P.funcs.get(nm)
    if f is None or f.decl or depth > 4: return False
    idx = [k for k, v in enumerate(I.o) if b in refs(v, set())]
    der = set(idx)      # parameters have ids 0..n-1
    for rnd in range(3):
        for B in f.blocks:
            for J in B:
                if J.op in ('gep', 'getelementptr', 'bitcast') and J.o and J.o[0][0] == '%' and J.o[0][1] in der: der.add(J.id)
                elif J.op == 'phi' and any(v[0] == '%' and v[1] in der for v, p in J.o): der.add(J.id)
    for B in f.blocks:
        for J in B:
            if J.op == 'store' and any(v[0] == '%' and v[1] in der for v in J.o): return False
            if J.op in ('call', 'invoke'):
                n2 = callee(J)
                for k, v in enumerate(J.o):
                    if v[0] == '%' and v[1] in der and not (n2 in READONLY or (n2 or '').startswith('llvm.dbg')): return False
            if J.op == 'ret' and J.o and J.o[0][0] == '%' and J.o[0][1] in der: return False
    return True

COUT = ('_ZSt4cout', '_ZSt5wcout')
def r02(pid, tier):
    r = Result('Output-channel analysis: every call that can write to standard output (stdio on stdout, std::cout, descriptor 1) and every write to a transport descriptor, filtered by reachability from the public functions; transport writes must not be reachable around the message writer.')
    n_out = 0; n_f = 0
    for grp in ('core', 'cxx'):
        P = ir.Program(build.dump(grp))
        g = graph(P); seen = reach(g, public(P))
        gate = 'write_message' if grp == 'core' else None
        if grp == 'core' and gate not in P.funcs: r.inconclusive.append('the message writer is not called write_message any more: transport writes are not attributed'); gate = None
        around = reach(g, public(P), (gate,)) if gate else {}
        for n in sorted(seen):
            f = P.funcs[n]
            if f.decl: continue
            n_f += 1
            out = stdout_values(f)
            via = ['reached by ' + ' > '.join(name(P, x) for x in path(seen, n))]
            for B in f.blocks:
                for I in B:
                    if I.op not in ('call', 'invoke'): continue
                    nm = callee(I)
                    if nm in STDIO: r.ob(False, f.where(I), f.src, 'prints to standard output with %s' % nm, via); n_out += 1
                    elif nm in FILEOUT:
                        v = I.o[FILEOUT[nm]] if len(I.o) > FILEOUT[nm] else None
                        n_out += 1
                        r.ob(not (v and v[0] == '%' and v[1] in out), f.where(I), f.src, 'prints to standard output with %s' % nm, via)
                    elif nm in FDOUT:
                        n_out += 1
                        v = I.o[0]
                        if v[0] == 'c' and v[1] == 1: r.ob(False, f.where(I), f.src, '%s writes to descriptor 1' % nm, via)
                        elif v[0] == '%' and v[1] in fdvalues(f, out): r.ob(False, f.where(I), f.src, '%s writes to the descriptor of standard output' % nm, via)
                        elif v[0] == 'c': r.ob(True, f.where(I), f.src, 'descriptor %s' % v[1])
                        elif grp == 'core' and gate: r.ob(n not in around, f.where(I), f.src, '%s writes to a transport without going through the message writer' % nm, ['reached by ' + ' > '.join(name(P, x) for x in path(around, n))] if n in around else [])
                        else: r.inconclusive.append('%s %s: %s on an unknown descriptor' % (f.where(I), f.src, nm))
                    else:
                        for c in COUT:
                            if c in refs(I.o, set()): r.ob(False, f.where(I), f.src, 'inserts into std::cout', via); n_out += 1
    r.obligations += n_f; r.discharged += n_f
    r.coverage = {'output_functions_scanned': n_f, 'output_calls': n_out}
    r.assumptions = ['loggers and files the caller passes in are the caller\'s', 'diagnostics compiled in by TRAX_DEBUG are not part of a release build']
    r.sample({'rule': 'no public function reaches a write to standard output outside write_message', 'output calls examined': n_out})
    return r
def stdout_values(f):
    s = set()
    for rnd in range(3):
        for B in f.blocks:
            for I in B:
                if I.op == 'load' and I.o and I.o[0] == ['g', 'stdout'] or I.op == 'load' and tuple(I.o[0][:2]) == ('g', 'stdout'): s.add(I.id)
                elif I.op == 'phi' and any(v[0] == '%' and v[1] in s for v, p in I.o): s.add(I.id)
                elif I.op == 'select' and any(v[0] == '%' and v[1] in s for v in I.o[1:]): s.add(I.id)
    return s
def fdvalues(f, out):
    return set(I.id for B in f.blocks for I in B if I.op in ('call', 'invoke') and callee(I) == 'fileno' and I.o[0][0] == '%' and I.o[0][1] in out)

def run(pid, tier): return {'R01': r01, 'R02': r02}[pid](pid, tier)
