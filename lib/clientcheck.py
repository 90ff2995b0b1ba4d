"""C01-C07: the tracker-process client.  Every public method, both thread functions and the logging callback are
interpreted abstractly (LLVM IR, exceptions included) with models of the operating system; the properties are monitors
over the events of a path: locks, watchdog timer, descriptors, signals, thread joins, results of exchanges."""
import re
import build, ir, core, absint, libc
import terms as T
from terms import *
from absint import Interp, State, Budget, UNDEF, NULL, eq, le, refine, assume_eq, assume_ne, bounds
from core import Base, show_trace
from result import Result

ST = ('ext', 'State'); PROC = ('ext', 'Process'); CLI = ('ext', 'Client'); TP = ('ext', 'TrackerProcess')
TRAX_OK = 0

def local(f): return bool(f.file) and ('/repo/' in f.file or f.file.startswith(build.REPO)) and '/usr/' not in f.file

class World(object):
    """program, offsets and entry points"""
    def __init__(s):
        s.P = P = ir.Program(build.dump('client'))
        s.C = core.consts()
        s.off = {}; s._m = {}; s.stop_locks = s.start_locks = frozenset()
        for c in ('State', 'Process', 'Mutex', 'Lock', 'Signal', 'TrackerProcess', 'Synchronized'):
            if c not in P.didx: raise build.Broken('class %s not found' % c)
            for m in P.didx[c]['members']: s.off[c, m[0]] = (m[1], m[2])
        s.mutexes = {}          # (object, offset) -> (name, recursive)
        for cls, obj in (('State', ST), ('Process', PROC)):
            for m in P.didx[cls]['members']:
                ty = m[3] or ''
                if ty in ('Mutex', 'RecursiveMutex'): s.mutexes[obj, m[1]] = [m[0], ty == 'RecursiveMutex']
                if m[0] == '<base>' and ty == 'Synchronized':
                    s.mutexes[obj, m[1] + s.off['Synchronized', 'object_mutex'][0]] = ['object_mutex of ' + cls, True]
                if ty == 'Signal': s.mutexes[obj, m[1] + s.off['Signal', 'mutex'][0]] = [m[0], False]
        s.guarded = [m for m in ('process', 'watchdog_timeout', 'callbacks', 'stdout_buffer', 'stderr_buffer') if ('State', m) in s.off]
        s.flags = [m for m in ('watchdog_active', 'logger_active') if ('State', m) in s.off]
        s.entries = []
        for f in P.funcs.values():
            if f.decl or not f.blocks: continue
            if f.name.startswith(('_ZN4trax14TrackerProcess', '_ZNK4trax14TrackerProcess')) and '5State' not in f.name: s.entries.append(f)
        s.state_fn = {f.src: f for f in P.funcs.values() if f.name.startswith('_ZN4trax14TrackerProcess5State') and not f.decl and 'D0Ev' not in f.name}
        s.proc_fn = {f.src: f for f in P.funcs.values() if re.match(r'_ZNK?7Process', f.name) and not f.decl and 'D0Ev' not in f.name}
        s.process_fn = [f for f in P.funcs.values() if re.match(r'_ZNK?7Process\w+', f.name) and not f.decl and f.blocks and 'D0Ev' not in f.name and 'D1Ev' not in f.name and 'C1E' not in f.name and f.args and f.args[0][0] == 'this']
    def f(s, cls, m): return s.off[cls, m][0]
    def matters(s, f, stack=()):
        """does the function do anything the properties speak about: operating system, locks, exceptions, sessions, or
        the fields of the classes"""
        z = s._m.get(f.name)
        if z is not None: return z
        if f.name in stack: return False
        r = bool(re.match(r'_ZNK?(7Process|5Mutex|14RecursiveMutex|4Lock|6Signal|12Synchronized|4trax14TrackerProcess)', f.name))
        for B in f.blocks if not r else ():
            for I in B:
                if I.op not in ('call', 'invoke'): continue
                c = I.d.get('callee')
                n = c[1] if c and c[0] == 'f' else None
                if n is None: r = True; break
                g = s.P.funcs.get(n)
                if n.startswith(('pthread_', 'posix_spawn', '__cxa_throw', '_ZN4trax6Client', '_ZNK4trax6Client', '_ZN4trax6Handle')) or n in ('kill', 'waitpid', 'pipe', 'pipe2', 'close', 'chdir', 'fchdir'): r = True
                elif g and not g.decl and local(g) and s.matters(g, stack + (f.name,)): r = True
            if r: break
        s._m[f.name] = r
        return r

class Cli(Base):
    drop_tags = True; part_limit = 12; max_states = 12; max_heads = 400; steps = 600000; inline_depth = 12
    def __init__(s, W, entry):
        Base.__init__(s); s.W = W; s.prog = W.P; s.entry = entry; s.models = dict(libc.MODELS)
        s.edges = {}; s.fields = {}; s.events = []; s.found = []
        for n in ('read', 'select', 'free', 'usleep', 'sleep', 'sprintf', 'snprintf', 'vsnprintf', 'strlen', 'memcpy', 'strcpy', 'strcmp', 'malloc', 'realloc', 'close', 'kill', 'waitpid', 'pipe'): s.models.pop(n, None)
        M = s.models
        M['pthread_mutex_lock'] = s.m_lock; M['pthread_mutex_unlock'] = s.m_unlock; M['pthread_mutex_trylock'] = s.m_unknown
        M['pthread_self'] = lambda I, st, fr, ins, a: [(st, atom(st, 'self', 1, 1 << 62))]
        M['pthread_equal'] = lambda I, st, fr, ins, a: [(st, 1 if a[0] == a[1] else 0)]
        M['pthread_join'] = s.m_join
        M['pthread_create'] = s.m_create
        M['__cxa_throw'] = s.m_throw
        M['__cxa_rethrow'] = s.m_throw
        M['kill'] = s.m_kill; M['waitpid'] = s.m_waitpid
        M['pipe'] = s.m_pipe; M['pipe2'] = s.m_pipe; M['close'] = s.m_close
        M['chdir'] = s.m_chdir; M['fchdir'] = s.m_chdir
        M['posix_spawn_file_actions_init'] = s.m_act_init; M['posix_spawn_file_actions_destroy'] = s.m_act_destroy
        M['posix_spawnp'] = M['posix_spawn'] = s.m_spawn
        M['_Znwm'] = s.m_new; M['_Znam'] = s.m_new
        M['_ZdlPv'] = M['_ZdlPvm'] = M['_ZdaPv'] = M['_ZdaPvm'] = s.m_delete
        M['free'] = lambda I, st, fr, ins, a: [(st, None)]
    # ---- bookkeeping
    def bad(s, pid, ok, where, func, what, detail, key): s.found.append((pid, ok, where, func, what, detail, key))
    def ev(s, I, st, fr, ins): return fr.f.where(ins), fr.f.src, show_trace(st.notes(14))
    def held(s, st): return st.mon.get('held', ())
    def name(s, p):
        if is_ptr(p):
            for (o, off), (nm, rec) in s.W.mutexes.items():
                if (p[1] == o or (o == PROC and p[1][0] == 'heap')) and is_int(p[2]) and off <= p[2] < off + 64: return nm
            if p[1][0] in ('heap', 'stack', 'ext') and is_int(p[2]):
                return '%s+%d' % (absint.freshname(p[1]) if False else (p[1][1] if p[1][0] == 'ext' else 'a new object'), p[2])
        return '?'
    def should_inline(s, I, st, f, depth): return local(f) and s.W.matters(f) and f.src not in ('timer_init', 'create_server_socket', 'destroy_server_socket', 'parse_command', '__getcwd', 'copy_environment', 'int_to_string', 'read_stream')
    def on_null(s, I, st, fr, ins, p, k): pass
    def on_undef(s, I, st, fr, ins, w): pass
    def on_leak(s, I, st, o, w): pass
    def on_freed(s, I, st, fr, ins, p, k): pass
    def on_badfree(s, I, st, fr, ins, p): pass
    # ---- locks
    def edge(s, st, a, b, w, d):
        if a == b or s.alone(st): return
        s.edges.setdefault((a, b), {}).setdefault(frozenset(x[1] for x in s.held(st)), (w, s.entry, d))
    def alone(s, st): return False
    def m_lock(s, I, st, fr, ins, a):
        p = a[0]; w, fn, d = s.ev(I, st, fr, ins); nm = s.name(p)
        h = s.held(st)
        ident = (p[1], p[2]) if is_ptr(p) else ('?',)
        if nm == '?': s.bad('C01', None, w, fn, 'which lock is taken', d, 'which'); return [(st, 0)]
        self_ = any(x[0] == ident for x in h)
        if self_ and 'pthread_mutexattr_settype' in s.W.P.funcs:    # it may be recursive by itself
            s.bad('C01', None, w, fn, 'whether the lock is recursive', d, 'native'); st.mon['held'] = h + ((ident, nm),); return [(st, 0)]
        s.bad('C01', not self_, where_called(I, fr, ins), s.entry, 'the lock %s is taken while the same thread already holds it' % nm, d, 'self-%s' % nm)
        if self_: return []
        for x in h: s.edge(st, x[1], nm, where_called(I, fr, ins), d)
        st.mon['held'] = h + ((ident, nm),); st.mon['locks'] = st.mon.get('locks', frozenset()) | {nm}
        st.note('%s: %s locked' % (w, nm))
        return [(st, 0)]
    def m_unlock(s, I, st, fr, ins, a):
        p = a[0]; h = s.held(st); w, fn, d = s.ev(I, st, fr, ins)
        ident = (p[1], p[2]) if is_ptr(p) else ('?',)
        L = [x for x in h if x[0] == ident]
        if not L and is_ptr(p): s.bad('C01', False, where_called(I, fr, ins), s.entry, 'the lock %s is released without being held' % s.name(p), d, 'release-%s' % s.name(p)); return [(st, 0)]
        if L:
            h = list(h); h.remove(L[-1]); st.mon['held'] = tuple(h)
            st.note('%s: %s unlocked' % (w, s.name(p)))
        return [(st, 0)]
    def m_unknown(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins); s.bad('C01', None, w, fn, 'use of %s' % ins.d['callee'][1], d, 'unknown'); return [(st, I.fresh(st, (fr.uid, ins.id)))]
    # ---- threads
    def m_create(s, I, st, fr, ins, a):
        st.mon['created'] = st.mon.get('created', ()) + ((a[2], a[0]),)
        for x in (a[0],):
            if is_ptr(x):
                m = dict(st.mem.get(x[1]) or {}); m[x[2]] = (T.A(('env', 'thread', x[1], x[2])), 8); st.mem[x[1]] = m
        return [(st, I.fresh(st, (fr.uid, ins.id, 'rc'), -100, 100))]
    def m_join(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        k = single_atom(a[0]) if is_num(a[0]) and not is_int(a[0]) else None
        who = T.atom_key(k)[2] if k is not None and T.atom_key(k)[:1] == ('env',) and len(T.atom_key(k)) == 3 else None
        st.mon['joined'] = st.mon.get('joined', ()) + ((who, s.held(st), where_called(I, fr, ins), st.mon.get('stopflags', ())),)
        st.note('%s: joined %s' % (w, who))
        return [(st, 0)]
    def m_throw(s, I, st, fr, ins, a):
        st.note('%s: exception' % fr.f.where(ins)); st.mon['threw'] = True
        return [(st, None, 'unwind')]
    # ---- processes
    def m_kill(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        pid, sig = a[0], a[1]
        s.signalled(I, st, fr, ins, pid, sig)
        st.mon['sig'] = st.mon.get('sig', ()) + ((sig if is_int(sig) else '?'),)
        st.mon['chk'] = False
        st.note('%s: signal %s' % (w, T.show(sig)))
        r = I.fresh(st, (fr.uid, ins.id, 'rc'), -1, 0)
        return [(st, r)]
    def signalled(s, I, st, fr, ins, pid, sig):
        w, fn, d = s.ev(I, st, fr, ins)
        pr = st.mon.get('life', 'unknown')
        s.bad('C05', pr != 'ended', w, s.entry, 'signal %s is sent to a process that has ended' % T.show(sig), d, 'ended-%s' % fn)
        # the flag must say that the process is running
        if pr == 'unknown':
            run = st.mem.get(PROC, {}).get(s.W.f('Process', 'running'))
            v = eq(st, run[0], 0) if st.mon.get('oldproc') and run and is_num(run[0]) else False
            s.bad('C05', v is False, w, s.entry, 'signal %s is sent without knowing that the process runs' % T.show(sig), d, 'blind-%s' % fn)
        pos = le(st, 1, pid) if is_num(pid) else None
        s.bad('C05', True if pos is True else False if eq(st, pid, 0) is True or pos is False else None, w, s.entry, 'signal %s is sent to process id %s' % (T.show(sig), T.show(pid)), d, 'pid-%s' % fn)
    def m_waitpid(s, I, st, fr, ins, a):
        out = []
        opts = a[2]
        s.bad('C05', True if opts == 1 else None if not is_int(opts) else opts & 1 == 1, *(s.ev(I, st, fr, ins)[:1]), s.entry, 'waiting for the process can block', s.ev(I, st, fr, ins)[2], 'block')
        pr = st.mon.get('life', 'unknown')
        def status(t, v):
            if is_ptr(a[1]): I.store(t, fr, ins, a[1], v, 4)
        if pr != 'ended':
            t = st.copy(); t.mon['life'] = 'alive'; t.mon['chk'] = True; t.note('%s: still running' % fr.f.where(ins)); out.append((t, 0))
            t = st.copy(); t.mon['life'] = 'ended'; t.mon['chk'] = True; status(t, 0); t.note('%s: exited' % fr.f.where(ins)); out.append((t, atom(t, 'pid of the process', 2, 1 << 22)))
            t = st.copy(); t.mon['life'] = 'ended'; t.mon['chk'] = True; status(t, 9); t.note('%s: ended by a signal' % fr.f.where(ins)); out.append((t, atom(t, 'pid of the process', 2, 1 << 22)))
        t = st.copy(); t.mon['chk'] = True
        if pr != 'ended': t.mon['life'] = 'gone'
        t.note('%s: no such process' % fr.f.where(ins)); out.append((t, -1))
        return out
    # ---- descriptors
    def fds(s, st): return st.mon.get('fds', ())
    def m_pipe(s, I, st, fr, ins, a):
        t = st.copy(); t.note('%s: no pipe' % fr.f.where(ins))
        out = [(t, -1)]
        n = st.mon.get('npipe', 0)
        if n < 6 and is_ptr(a[0]):
            x, y = atom(st, 'fd%d' % (2 * n), 0, 1 << 16), atom(st, 'fd%d' % (2 * n + 1), 0, 1 << 16)
            st.mon['npipe'] = n + 1; st.mon['fds'] = s.fds(st) + (2 * n, 2 * n + 1)
            I.store(st, fr, ins, a[0], x, 4); I.store(st, fr, ins, ('p', a[0][1], add(a[0][2], 4)), y, 4)
            st.note('%s: pipe %d, %d' % (fr.f.where(ins), 2 * n, 2 * n + 1)); out.append((st, 0))
        return out
    def m_close(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        k = fdnum(a[0])
        if a[0] == UNDEF:
            s.bad('C04', False, w, s.entry, 'a descriptor that was never set is closed', d, 'unset-%s' % fn); return [(st, 0)]
        if k is None:
            if is_int(a[0]): s.bad('C04', a[0] >= 0 and False, w, s.entry, 'descriptor %d, which is no pipe of this process, is closed' % a[0], d, 'foreign-%s' % fn)
            else: s.bad('C04', None, w, s.entry, 'which descriptor is closed: %s' % T.show(a[0]), d, 'which')
            return [(st, I.fresh(st, (fr.uid, ins.id), -1, 0))]
        h = s.fds(st)
        s.bad('C04', k in h, w, s.entry, 'a descriptor is closed that is no longer open', d, 'twice')
        st.mon['fds'] = tuple(x for x in h if x != k)
        return [(st, 0)]
    def m_chdir(s, I, st, fr, ins, a):
        p = a[0]
        t = st.copy(); t.note('%s: directory not changed' % fr.f.where(ins))
        where = st.mon.get('cwdobj')
        back = is_ptr(p) and where is not None and p[1] == where
        st.mon['cwd'] = 'old' if back else 'new'
        if back: t.mon['cwd'] = 'old'       # a failure to go back is reported by the caller; nothing more can be done
        st.note('%s: directory %s' % (fr.f.where(ins), 'restored' if back else 'changed'))
        return [(t, -1), (st, 0)]
    def m_act_init(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        s.bad('C04', not st.mon.get('act'), w, s.entry, 'spawn actions are set up twice', d, 'act-twice'); st.mon['act'] = True
        return [(st, 0)]
    def m_act_destroy(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        s.bad('C04', bool(st.mon.get('act')), w, s.entry, 'spawn actions are released that were not set up', d, 'act-none'); st.mon['act'] = False
        return [(st, 0)]
    def m_spawn(s, I, st, fr, ins, a):
        t = st.copy(); t.note('%s: spawning failed' % fr.f.where(ins))
        st.mon['life'] = 'unknown'; st.mon['spawned'] = True; st.mon['oldproc'] = False
        if is_ptr(a[0]): I.store(st, fr, ins, a[0], atom(st, 'pid of the process', 2, 1 << 22), 4)
        st.note('%s: process started' % fr.f.where(ins))
        return [(t, atom(t, 'errno', 1, 200)), (st, 0)]
    # ---- objects
    def m_new(s, I, st, fr, ins, a):
        o = I.newobj(st, 'heap', (fr.uid, ins.id), a[0] if is_num(a[0]) else None)
        return [(st, ('p', o, 0))]
    def m_delete(s, I, st, fr, ins, a):
        p = a[0]; w, fn, d = s.ev(I, st, fr, ins)
        if is_ptr(p):
            s.deleted(I, st, fr, ins, p)
            if p[1] in st.objs and p[1][0] == 'heap':
                st.objs[p[1]] = ('freed',) + tuple(st.objs[p[1]][1:])
        return [(st, None)]
    def deleted(s, I, st, fr, ins, p): pass
    # ---- calls
    def on_call(s, I, st, fr, ins, name, args):
        if name is None:
            return None
        f = s.prog.funcs.get(name)
        if re.match(r'_ZN4trax6ClientC[12]', name): return s.connect(I, st, fr, ins, args)
        m = re.match(r'_ZNK?4trax6Client(?:D[012]|\d+([a-z_]+)E)|_ZNK?4trax6Handle\d+([a-z_]+)E|_ZNK?4trax7Wrapper', name)
        if m and (f is None or f.decl or True):
            k = m.group(1) or m.group(2)
            if name.startswith('_ZN4trax6ClientD'): k = '~'
            if k is None:      # Wrapper::operator bool
                if not (is_ptr(args[0]) and args[0][1] in (CLI,) or True): return None
                if 'cvb' in name: return [(st, st.mon['connected'] if 'connected' in st.mon and st.mon['connected'] is not None else atom(st, 'connected', 0, 1))]
                return None
            return s.client(I, st, fr, ins, k, args)
        if 'runtime_error' in name and 'C' in name and re.search(r'runtime_errorC[12]', name): return s.exception(I, st, fr, ins, args)
        return None
    def exception(s, I, st, fr, ins, args): return [(st, None)]
    def connect(s, I, st, fr, ins, args):
        s.exchange(I, st, fr, ins, 'connecting')
        st.mon['client'] = 'new'
        if is_ptr(args[0]): st.mon['clientobj'] = args[0][1]
        out = []
        for t in s.callback(I, st, fr, ins):
            u = t.copy(); u.mon['connected'] = 0; u.note('%s: no connection' % fr.f.where(ins)); out.append((u, None))
            t.mon['connected'] = 1; t.note('%s: connected' % fr.f.where(ins)); out.append((t, None))
        return out
    def exchange(s, I, st, fr, ins, what):
        w, fn, d = s.ev(I, st, fr, ins)
        v = st.mem.get(ST, {}).get(s.W.f('State', 'watchdog_timeout'))
        v = v[0] if v else None
        ok = le(st, 1, v) if v is not None and is_num(v) else None
        s.bad('C02', ok, w, s.entry, '%s runs while the watchdog is %s' % (what, 'disarmed' if v == 0 else 'not known to be armed'), d, 'armed-%s-%s' % (s.entry, what))
    def callback(s, I, st, fr, ins):
        """the client library reports traffic to the logger, in the calling thread"""
        f = s.W.state_fn.get('client_logger')
        if f is None or st.mon.get('incb'): return [st]
        out = [st.copy()]
        st.mon['incb'] = True
        o = ('ext', 'traffic'); st.objs[o] = ('ext', None, 'ext', 'traffic')
        n = 0
        for p in (NULL, ('p', o, 0)):
            t = st.copy()
            for s2, v, k in I.call_function(f, t, [p, atom(t, 'traffic length', 0, 1 << 20), ('p', ST, 0)], fr.f.where(ins), 1, fr.ctx + ((fr.f.name, ins.id, 'cb'),)):
                s2.mon['incb'] = False; out.append(s2)
        # states that differ in nothing that matters
        seen = {}; 
        for t in out:
            t.mon['incb'] = False
            seen.setdefault((s.held(t), tuple(sorted((k, repr(v)) for k, v in t.mon.items() if k != 'locks'))), t)
        return list(seen.values())
    def client(s, I, st, fr, ins, k, args):
        if k == '~': st.mon['client'] = 'deleted'; return [(st, None)]
        if k == 'terminate':
            st.mon['asked'] = True
            st.note('%s: quit is sent' % fr.f.where(ins))
            return [(t, I.fresh(t, (fr.uid, ins.id), -1, 0)) for t in s.callback(I, st, fr, ins)]
        if k in ('initialize', 'frame', 'wait'):
            s.exchange(I, st, fr, ins, k)
            out = []
            st.mon['results'] = None
            for t in s.callback(I, st, fr, ins):
                C = s.W.C
                for nm, v in ((('TRAX_STATE', C['TRAX_STATE']), ('TRAX_QUIT', C['TRAX_QUIT']), ('TRAX_ERROR', -1)) if k == 'wait' else (('TRAX_OK', 0), ('TRAX_ERROR', -1))):
                    u = t.copy(); u.mon['result'] = (k, nm); u.note('%s: %s returns %s' % (fr.f.where(ins), k, nm)); out.append((u, v))
            return out
        if k == 'is_alive': return [(st, atom(st, 'session alive', 0, 1))]
        if k == 'get_parameter' and len(args) > 2 and is_ptr(args[2]):
            I.store(st, fr, ins, args[2], atom(st, 'parameter', -(1 << 20), 1 << 20), 4)
            return [(st, I.fresh(st, (fr.uid, ins.id), 0, 1))]
        return [(st, s.unknown_value(I, st, fr, ins, k))]
    def on_unknown_call(s, I, st, fr, ins, name, args):
        f = s.prog.funcs.get(name) if name else None
        if ins.d.get('noret') or (f and f.noreturn): return []
        if name and '__getcwd' in name and is_ptr(args[0]): st.mon['cwdobj'] = args[0][1]
        for i, a in enumerate(args):
            if not is_ptr(a): continue
            if i == 0 and name and name.startswith('_ZNK'):       # a const method leaves its object as it is
                if a[1] == ST: s.on_access(I, st, fr, ins, a, 1, 'call')
                continue
            if a[1] == ST: s.on_access(I, st, fr, ins, a, 1, 'call')
            if a[1] in (ST, PROC) or (is_int(a[2]) and a[1] in st.objs and s.cls_of(st, a[1])):
                cls = 'State' if a[1] == ST else 'Process'
                # only the member that is passed
                if is_int(a[2]):
                    for (c, m), (o, z) in s.W.off.items():
                        if c == cls and o <= a[2] < o + z:
                            mm = dict(st.mem.get(a[1]) or {})
                            if a[2] == o and m == '<base>': continue
                            if a[2] == 0: continue
                            for q in [q for q in mm if is_int(q) and a[2] <= q < o + z]: mm.pop(q)
                            st.mem[a[1]] = mm
                continue
            if a[1] in st.objs: I.escape_val(st, a); I.havoc(st, a[1])
        v = None
        if name and name.startswith('_ZNKSt') and '5c_str' in name and is_ptr(args[0]): v = args[0]
        else: v = s.unknown_value(I, st, fr, ins, name)
        return [(st, v)]
    def unknown_value(s, I, st, fr, ins, k):
        if not ins.t or ins.t == 'void': return None
        v = I.fresh(st, (fr.ctx, ins.id, 'ret', k))
        if not isinstance(ins.t, str) or ins.t.startswith(('{', '[', '<', '%')): return v
        return I.typed(st, v, ins.t, ins.sz)
    def cls_of(s, st, o): return o[0] == 'heap' and st.objs[o][1] == s.W.P.didx['Process']['size']
    # ---- data
    def on_access(s, I, st, fr, ins, p, n, k):
        if not is_ptr(p) or s.alone(st): return
        if p[1] == PROC and s.kind in ('user', 'stop', 'watchdog', 'logger'):
            # the object the shared reference leads to may be released by another thread
            s.fields.setdefault('process', {}).setdefault((where_called2(I, fr, ins), 'object', frozenset(x[1] for x in s.held(st) if x[0] is None or x[0][0] != PROC)), (s.entry, show_trace(st.notes(10))))
        if p[1] != ST or not is_int(p[2]): return
        for m in s.W.guarded:
            o, z = s.W.off['State', m]
            if o <= p[2] < o + z:
                s.fields.setdefault(m, {}).setdefault((where_called(I, fr, ins), k, frozenset(x[1] for x in s.held(st))), (s.entry, show_trace(st.notes(10))))
    def on_store(s, I, st, fr, ins, p, v):
        if is_ptr(p) and p[1] == ST and is_int(p[2]):
            for m in s.W.flags:
                if p[2] == s.W.off['State', m][0] and v == 0: st.mon['stopflags'] = tuple(sorted(set(st.mon.get('stopflags', ())) | {m}))
    def cell_limit(s, I, fr, cell): return None if cell[0] != 'r' else 8 if fr.f.name.startswith(('_ZN7Process', '_ZNK7Process')) else 1
    def mon_key(s, st):
        c = (st.mem.get(ST) or {}).get(s.W.off['State', 'watchdog_timeout'][0]) if ('State', 'watchdog_timeout') in s.W.off else None
        t = eq(st, c[0], 0) if c is not None and c.__class__ is tuple and is_num(c[0]) else None
        return tuple(sorted(((k, v) for k, v in st.mon.items() if k != 'locks'), key=repr)) + (t,)

def fdnum(v):
    a = single_atom(v) if is_num(v) and not is_int(v) else None
    k = T.atom_key(a) if a is not None else None
    if k and k[0] == 'env' and isinstance(k[1], str) and re.match(r'fd\d+$', k[1]): return int(k[1][2:])
    return None
def atom(st, name, lo, hi):
    v = T.A(('env', name)); refine(st, single_atom(v), lo, hi); return v
def where_called2(I, fr, ins):
    """the place in the client that leads into the process object"""
    inside = ('threads.cpp', 'threads.h', 'process.cpp', 'process.h')
    if not (fr.f.file or '').endswith(inside): return fr.f.where(ins)
    for c in reversed(I.callstack):
        m = re.search(r'\(([^()]*:\d+)\)$', c)
        if m and not m.group(1).split(':')[0].endswith(inside): return m.group(1)
    return fr.f.where(ins)
def where_called(I, fr, ins):
    """the place in the client (not in the lock classes) that leads here"""
    if not (fr.f.file or '').endswith(('threads.cpp', 'threads.h')): return fr.f.where(ins)
    for c in reversed(I.callstack):
        m = re.search(r'\(([^()]*:\d+)\)$', c)
        if m and not m.group(1).split(':')[0].endswith(('threads.cpp', 'threads.h')): return m.group(1)
    return fr.f.where(ins)

# ------------------------------------------------------------------------------------------------ runs
DESCR = {'C01': 'locks', 'C02': 'watchdog', 'C03': 'guarded data', 'C04': 'descriptors', 'C05': 'signals', 'C06': 'results', 'C07': 'threads'}

class Run(Cli):
    """one entry in one initial state"""
    def __init__(s, W, kind, f, init):
        Cli.__init__(s, W, f.src); s.kind = kind; s.f = f; s.init = init
        M = s.models
        M['pthread_cond_wait'] = s.m_condwait
        for n in ('pthread_cond_timedwait',): M[n] = lambda I, st, fr, ins, a: [(st, I.fresh(st, (fr.uid, ins.id, 'rc'), 0, 200))]
        for n in ('pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_mutex_init', 'pthread_cond_init', 'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_attr_init', 'pthread_attr_destroy'):
            M[n] = lambda I, st, fr, ins, a: [(st, 0)]
        M['__cxa_allocate_exception'] = s.m_exc
        M['__cxa_free_exception'] = lambda I, st, fr, ins, a: [(st, None)]
        M['sigaction'] = M['signal'] = lambda I, st, fr, ins, a: [(st, 0)]
    def alone(s, st):
        """no other thread of the object runs"""
        if s.kind == 'ctor': return not st.mon.get('created')
        return s.kind == 'dtor' and len({j[0] for j in st.mon.get('joined', ())} - {None}) >= 2
    def m_exc(s, I, st, fr, ins, a):
        o = I.newobj(st, 'heap', (fr.uid, ins.id), a[0] if is_num(a[0]) else None)
        return [(st, ('p', o, 0))]
    def m_condwait(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        m = (a[1][1], a[1][2]) if is_ptr(a[1]) else None
        others = [x[1] for x in s.held(st) if x[0] != m]
        s.bad('C01', not others, where_called(I, fr, ins), s.entry, 'waits without a time limit while holding %s' % ', '.join(others), d, 'condwait')
        return [(st, 0)]
    def m_new(s, I, st, fr, ins, a):
        if s.kind == 'ctor' and a[0] == s.W.P.didx['State']['size'] and ST not in st.objs:
            st.objs[ST] = ('ext', a[0], 'ext', 'state'); st.mem[ST] = {}
            return [(st, ('p', ST, 0))]
        return Cli.m_new(s, I, st, fr, ins, a)
    def exception(s, I, st, fr, ins, args):
        if is_ptr(args[0]):
            b = set(st.mon.get('built', ()))
            if len(args) > 1 and is_ptr(args[1]): b.discard(args[1][1])
            b.add(args[0][1]); st.mon['built'] = tuple(sorted(b, key=repr))
            st.note('%s: an error object is built' % fr.f.where(ins))
        return [(st, None)]
    def m_throw(s, I, st, fr, ins, a):
        b = set(st.mon.get('built', ()))
        if a and is_ptr(a[0]): b.discard(a[0][1])
        st.mon['built'] = tuple(sorted(b, key=repr))
        return Cli.m_throw(s, I, st, fr, ins, a)
    def proc_cell(s, st):
        v = st.mem.get(ST, {}).get(s.W.f('State', 'process'))
        return v[0] if v else None
    def deleted(s, I, st, fr, ins, p):
        w, fn, d = s.ev(I, st, fr, ins)
        isproc = p[1] == PROC or (p[1][0] == 'heap' and p[1] in st.objs and s.cls_of(st, p[1]))
        if isproc:
            st.mon['procgone'] = True
            life = st.mon.get('life', 'unknown'); sig = st.mon.get('sig', ())
            running = st.mem.get(p[1], {}).get(s.W.f('Process', 'running'))
            started = st.mon.get('spawned') or (p[1] == PROC and st.mon.get('wasrunning') and eq(st, T.A(('env', 'running')), 0) is not True)
            if started: s.bad('C05', life in ('ended', 'gone') or 9 in sig, w, s.entry, 'the process object is released although the process may be running and was never killed', d, 'released')
            s.bad('C04', not s.fds(st), w, s.entry, 'the process object is released with %d open descriptors' % len(s.fds(st)), d, 'fds-released')
            s.bad('C04', not st.mon.get('act'), w, s.entry, 'the process object is released with the set-up of the spawn', d, 'act-released')
        if s.kind == 'dtor' and (isproc or p[1] == CLI): s.joined_first(I, st, fr, ins, 'the process' if isproc else 'the session')
        if p[1] == ST: s.joined_first(I, st, fr, ins, 'the state of the object')
    def joined_first(s, I, st, fr, ins, what):
        w, fn, d = s.ev(I, st, fr, ins)
        if s.kind != 'dtor': return
        n = len({j[0] for j in st.mon.get('joined', ())} - {None})
        s.bad('C07', n >= 2, w, s.entry, '%s is released while %d thread(s) of the object may run' % (what, 2 - n), d, 'early-%s' % what)
    def client(s, I, st, fr, ins, k, args):
        w, fn, d = s.ev(I, st, fr, ins)
        if k == '~': s.joined_first(I, st, fr, ins, 'the session')
        if k == 'terminate': st.mon['chk'] = False
        if k in ('frame', 'wait') and s.kind == 'user':
            v = st.mem.get(ST, {}).get(s.W.off.get(('State', 'tracking'), (-1,))[0])
            z = eq(st, v[0], 0) if v and is_num(v[0]) else None
            s.bad('C06', True if z is False else False if z is True or (v and v[0] == T.A(('env', 'tracking'))) else None, w, s.entry, '%s is attempted although no tracking is in progress' % k, d, 'allowed-%s' % k)
        if k == 'get_parameter': st.mon['asked_version'] = True
        return Cli.client(s, I, st, fr, ins, k, args)
    def m_kill(s, I, st, fr, ins, a):
        w, fn, d = s.ev(I, st, fr, ins)
        sig = a[1]; sigs = st.mon.get('sig', ())
        life = st.mon.get('life', 'unknown')
        c = st.mem.get(ST, {}).get(s.W.f('State', 'client'))
        if sig == 15 and s.kind not in ('process', 'pdtor'):
            null = I.null_state(st, c[0]) if c else None
            s.bad('C05', True if st.mon.get('asked') or null is True else False if null is False else None, w, s.entry, 'the process is signalled before it was asked over the protocol', d, 'ask-first')
            s.bad('C05', bool(st.mon.get('chk')) or not st.mon.get('asked'), w, s.entry, 'the process is signalled without checking whether it ended after it was asked', d, 'check-asked')
        if sig == 9:
            if life == 'alive': s.bad('C05', 15 in sigs, w, s.entry, 'a running process is killed without the termination signal', d, 'term-first')
            if 15 in sigs and 9 not in sigs: s.bad('C05', bool(st.mon.get('chk')), w, s.entry, 'the process is killed without checking whether it ended after the termination signal', d, 'check-term')
        return Cli.m_kill(s, I, st, fr, ins, a)
    def on_store(s, I, st, fr, ins, p, v):
        Cli.on_store(s, I, st, fr, ins, p, v)
        if is_ptr(p) and p[1] == ST and p[2] == s.W.f('State', 'process') and v == NULL and s.kind != 'ctor':
            old = s.proc_cell(st)
            n = I.null_state(st, old) if old is not None else True
            if n is False:
                w, fn, d = s.ev(I, st, fr, ins)
                s.bad('C05', bool(st.mon.get('procgone')), w, s.entry, 'the reference to the process is dropped before the process was dealt with', d, 'dropped')
    def contract_locks(s, st, locks, w, d, text):
        """what taking the locks of a step means here; true if it blocks for ever"""
        st.mon['locks'] = st.mon.get('locks', frozenset()) | locks
        rec = {nm for nm, r in s.W.mutexes.values() if r}
        stuck = False
        for L in sorted(locks):
            self_ = any(x[1] == L for x in s.held(st))
            if L not in rec: s.bad('C01', not self_, w, s.entry, text % L, d, 'self-%s' % L); stuck = stuck or self_
            if not self_:
                for x in s.held(st): s.edge(st, x[1], L, w, d)
        return stuck
    # ---- contracts of the two big steps, each established by its own run
    def c_stop(s, I, st, fr, ins):
        W = s.W; w, fn, d = s.ev(I, st, fr, ins)
        if s.contract_locks(st, W.stop_locks, w, d, 'the process is stopped while %s is held, which stopping takes'): return []
        s.joined_first(I, st, fr, ins, 'the process')
        m = dict(st.mem[ST]); m[W.f('State', 'process')] = (NULL, 8); m[W.f('State', 'watchdog_timeout')] = (0, 4); st.mem[ST] = m
        st.mon['procgone'] = True; st.mon['fds'] = (); st.mon['act'] = False; st.mon['life'] = 'ended'; st.mon['asked'] = True
        st.note('%s: the process is stopped' % w)
        a = st.copy()
        return [(st, 0), (a, 1)]
    def c_start(s, I, st, fr, ins):
        W = s.W; w, fn, d = s.ev(I, st, fr, ins)
        if s.contract_locks(st, W.start_locks, w, d, 'a process is started while %s is held, which starting takes'): return []
        out = []
        if I.null_state(st, s.proc_cell(st)) is not True:
            t = st.copy(); t.note('%s: the process runs already' % w); out.append((t, 0))
        def put(t, **kw):
            m = dict(t.mem[ST])
            for k, v in kw.items(): m[W.f('State', k)] = (v, W.off['State', k][1])
            t.mem[ST] = m
        for how in ('ok', 'fresh', 'stopped'):
            t = st.copy(); t.mon.pop('procgone', None); t.mon.pop('sig', None); t.mon.pop('asked', None)
            put(t, watchdog_timeout=0)
            if how == 'stopped': put(t, process=NULL); t.mon['fds'] = (); t.mon['act'] = False
            else: set_proc(W, t, 'started' if how == 'ok' else 'fresh'); put(t, process=('p', PROC, 0), client=('p', CLI, 0) if how == 'ok' else NULL)
            t.mon['connected'] = 1 if how == 'ok' else 0
            t.note('%s: %s' % (w, 'the process is started and connected' if how == 'ok' else 'starting fails'))
            if how == 'ok': out.append((t, 1))
            else: t.mon['threw'] = True; out.append((t, None, 'unwind'))
        return out
    def on_call(s, I, st, fr, ins, name, args):
        f = s.prog.funcs.get(name) if name else None
        if f is not None and s.kind != 'stop' and f is s.W.state_fn.get('stop_process'): return s.c_stop(I, st, fr, ins)
        if f is not None and s.f.src != 'query' and s.kind == 'user' and f is s.W.state_fn.get('start_process'): return s.c_start(I, st, fr, ins)
        m = re.match(r'_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(?:4size|6length|5empty|7compare)(?:Ev|EPKc)$|_ZSt(?:ne|eq)IcSt11char_traitsIcESaIcEEbRKNSt7__cxx1112basic_string.*PKS5_$', name or '')
        if m and len(args) > 1 and libc.cstr(I, st, args[1]) not in ('', b''): m = None
        if m and is_ptr(args[0]) and is_int(args[0][2]):
            o, k = args[0][1], args[0][2] + 8
            c = (st.mem.get(o) or {}).get(k)
            if c is None or not is_num(c[0]):
                v = I.fresh(st, (fr.uid, ins.id, 'size'), 0, 1 << 30); mm = dict(st.mem.get(o) or {}); mm[k] = (v, 8); st.mem[o] = mm
            else: v = c[0]
            if '4size' in name or '6length' in name or '7compare' in name: return [(st, v)]
            yes, no = (0, 1) if name.startswith('_ZStne') else (1, 0)
            z = eq(st, v, 0)
            if z is not None: return [(st, yes if z else no)]
            a = st.copy(); out = []
            if assume_eq(a, v, 0): out.append((a, yes))
            if assume_ne(st, v, 0): out.append((st, no))
            return out
        if name is None and s.kind == 'watchdog':
            a = st.copy(); a.mon['cbfired'] = True; a.note('%s: a registered callback asks for a stop' % fr.f.where(ins))
            return [(st, 0), (a, 1)]
        return Cli.on_call(s, I, st, fr, ins, name, args)
    def on_back(s, I, st, fr, head):
        if s.kind not in ('watchdog', 'logger') or fr.f is not s.f: return
        if any(head in b and h != head for h, b in fr.f.loops.items()): return
        w = fr.f.where(fr.f.blocks[head][0])
        n = st.mon.get('backs', 0) + 1
        d = show_trace(st.notes(14))
        if s.init.get('later') and n == s.init['later']:
            for m in s.W.flags:
                mm = dict(st.mem.get(ST) or {}); mm[s.W.f('State', m)] = (0, s.W.off['State', m][1]); st.mem[ST] = mm
            st.note('the object is being destroyed: both threads are told to stop')
        if s.init.get('later') and n > s.init['later']:
            s.bad('C07', n <= s.init['later'] + 1, w, s.f.src, 'the loop goes on after it was told to stop', d, 'goes-on-%s' % s.kind)
            if n > s.init['later'] + 1: st.dead = True
        if s.init.get('flag') == 0:
            s.bad('C07', n <= 1, w, s.f.src, 'the loop goes on after it was told to stop', d, 'goes-on-%s' % s.kind)
            if n > 1: st.dead = True
        if s.kind == 'watchdog' and n == 1:
            v = s.init.get('timer')
            gone = I.null_state(st, s.proc_cell(st)) if s.proc_cell(st) is not None else None
            alive = st.mon.get('firstlife') == 'alive'
            cur = st.mem.get(ST, {}).get(s.W.f('State', 'watchdog_timeout'))
            cur = cur[0] if cur else None
            if v == 1 and alive: s.bad('C02', gone, w, s.f.src, 'the timer of the watchdog runs out and the tracker is not stopped', d, 'expire')
            if v != 1 and alive and not st.mon.get('cbfired'): s.bad('C02', None if gone is None else not gone, w, s.f.src, 'the watchdog stops a tracker although its timer %s' % ('is off' if v == 0 else 'has not run out'), d, 'early')
            if v and v > 1 and alive and not st.mon.get('cbfired') and cur is not None and is_num(cur):
                s.bad('C02', eq(st, cur, v - 1), w, s.f.src, 'the timer of the watchdog goes from %d to %s' % (v, T.show(cur)), d, 'tick')
            if v == 0 and alive and not st.mon.get('cbfired') and cur is not None and is_num(cur):
                s.bad('C02', eq(st, cur, 0), w, s.f.src, 'the timer of the watchdog starts by itself: %s' % T.show(cur), d, 'self-start')
        st.mon['backs'] = min(n, 4 if s.init.get('later') else 2)
    def m_waitpid(s, I, st, fr, ins, a):
        out = Cli.m_waitpid(s, I, st, fr, ins, a)
        for t, v in out if s.kind == 'watchdog' else ():
            if 'firstlife' not in t.mon: t.mon['firstlife'] = 'alive' if v == 0 else 'over'
        return out

def vtable(P, n): return ('p', ('G', n), 16) if n in P.globals else None
def set_mutex(W, m, off, rec):
    m[off + W.f('Mutex', 'owner')] = (0, 8); m[off + W.f('Mutex', 'counter')] = (0, 4); m[off + W.f('Mutex', 'recursive')] = (1 if rec else 0, 1)
def set_proc(W, st, proc):
    """a process object as a start leaves it: 'started' (which may have ended since) or 'fresh' (the start failed)"""
    st.objs[PROC] = ('ext', W.P.didx['Process']['size'], 'ext', 'process')
    m = {}
    m[0] = (vtable(W.P, '_ZTV7Process') or T.A(('env', 'vptr2')), 8)
    for (o, off), (nm, rec) in W.mutexes.items():
        if o == PROC: set_mutex(W, m, off, rec)
    old = proc == 'started'
    F = lambda x: W.f('Process', x)
    r = atom(st, 'running', 0, 1) if old else 0
    m[F('running')] = (r, 1); m[F('pid')] = (atom(st, 'pid of the process', 2, 1 << 22) if old else 0, 4)
    m[F('action_initialized')] = (1 if old else 0, 1)
    k = 0; fds = []
    for n in ('out', 'in', 'err'):
        for j in (0, 4):
            m[F(n) + j] = (atom(st, 'fd%d' % k, 0, 1 << 16) if old else -1, 4); fds.append(k); k += 1
    st.mon['fds'] = tuple(fds) if old else (); st.mon['act'] = old
    if old: st.mon['npipe'] = 3; st.mon['wasrunning'] = True
    for n, q in (('p_stdin', 1), ('p_stdout', 2), ('p_stderr', 4)): m[F(n)] = (atom(st, 'fd%d' % q, 0, 1 << 16) if old else -1, 4)
    st.mem[PROC] = m
    st.mon['oldproc'] = True; st.mon['life'] = 'unknown'

def initial(W, kind, f, init):
    c = Run(W, kind, f, init)
    st = core.new_state()
    c.entry = f.src
    P = W.P
    st.objs[TP] = ('ext', P.didx['TrackerProcess']['size'], 'ext', 'tracker process')
    refine(st, single_atom(T.A(('env', 'self'))), 1, 1 << 62)
    args = []
    if kind in ('process', 'pdtor', 'pctor'):
        set_proc(W, st, init.get('proc'))
        if kind == 'pctor': st.mem[PROC] = {}; st.mon['fds'] = (); st.mon['act'] = False; st.mon['oldproc'] = False
    elif kind == 'ctor':
        st.mem[TP] = {}
    else:
        st.objs[ST] = ('ext', P.didx['State']['size'], 'ext', 'state')
        m = {}
        def put(cls, field, v, base=0): m[base + W.f(cls, field)] = (v, W.off[cls, field][1])
        m[0] = (vtable(P, '_ZTVN4trax14TrackerProcess5StateE') or T.A(('env', 'vptr')), 8)
        sig = {x[1] for x in P.didx['State']['members'] if x[3] == 'Signal'}
        for (o, off), (nm, rec) in W.mutexes.items():
            if o == ST and not any(g <= off < g + W.off['Signal', 'mutex'][0] + 40 for g in sig): set_mutex(W, m, off, rec)
        def a(n, lo, hi): return atom(st, n, lo, hi)
        proc, client = init.get('proc'), init.get('client')
        put('State', 'process', ('p', PROC, 0) if proc else NULL)
        put('State', 'client', ('p', CLI, 0) if client else NULL)
        for fl, v in (('tracking', a('tracking', 0, 1)), ('connection', a('connection', 0, 2)), ('verbosity', init.get('verbosity', 2)), ('timeout', a('timeout', 1, 1 << 20)), ('watchdog_timeout', init.get('timer', 0)),
                      ('watchdog_active', init.get('flag', a('flag', 0, 1))), ('logger_active', init.get('flag', a('flag', 0, 1)))):
            if ('State', fl) in W.off: put('State', fl, v)
        for th in ('watchdog_thread', 'logger_thread'):
            if ('State', th) in W.off: m[W.f('State', th)] = (T.A(('env', 'thread', W.f('State', th))), 8)
        st.objs[('ext', 'log')] = ('ext', None, 'ext', 'log')
        if ('State', 'logger_stream') in W.off: put('State', 'logger_stream', ('p', ('ext', 'log'), 0))
        st.mem[ST] = m
        st.mem[TP] = {W.f('TrackerProcess', 'state'): (('p', ST, 0), 8)}
        st.objs[CLI] = ('ext', None, 'ext', 'client')
        if proc: set_proc(W, st, proc)
    for i, (nm, ty) in enumerate((x[0], x[1]) for x in f.args):
        if kind in ('watchdog', 'logger', 'stop'): args.append(('p', ST, 0))
        elif nm == 'this': args.append(('p', PROC if kind in ('process', 'pdtor', 'pctor') else TP, 0))
        elif ty == 'ptr':
            o = ('ext', 'arg %s' % nm); st.objs[o] = ('ext', None, 'ext', nm); args.append(('p', o, 0))
        elif nm == 'timeout': args.append(atom(st, 'timeout', 1, 1 << 20))
        elif nm == 'verbosity': args.append(init.get('verbosity', 2))
        elif nm in ('connection',): args.append(atom(st, nm, 0, 2))
        else: args.append(T.A(('env', 'arg %s' % nm)))
    return c, st, args

def init_started(c): return c.init.get('proc') == 'started'
RESULTS = {'initialize': 'TRAX_OK', 'frame': 'TRAX_OK', 'wait': 'TRAX_STATE'}
def finish(c, I, st, v, kind):
    """what has to hold when the entry is left"""
    W, f = c.W, c.f
    d = show_trace(st.notes(16))
    where = f.where(f.blocks[0][0])
    for t in reversed(d):
        m = re.match(r'([\w./-]+:\d+): ', str(t))
        if m: where = m.group(1); break
    how = 'by exception' if kind == 'unwind' else 'normally'
    bad = lambda pid, ok, what, key: c.bad(pid, ok, where, c.entry, what, d, key)
    bad('C01', not c.held(st), '%s is left %s with %s locked' % (c.entry, how, ', '.join(x[1] for x in c.held(st))), 'left-locked')
    cell = lambda m: (st.mem.get(ST, {}).get(W.f('State', m)) or (None,))[0]
    timer = cell('watchdog_timeout')
    if c.kind in ('user', 'ctor'):
        if not (c.kind == 'ctor' and kind == 'unwind'):
            bad('C02', eq(st, timer, 0) if timer is not None and is_num(timer) else None, '%s is left %s with the watchdog armed' % (c.entry, how), 'armed-left')
    if c.kind == 'stop':
        bad('C02', eq(st, timer, 0) if timer is not None and is_num(timer) else None, 'stopping the tracker leaves the watchdog armed', 'armed-stop')
        q = cell('process')
        bad('C05', I.null_state(st, q) if q is not None else None, 'stopping the tracker leaves a reference to the process', 'stop-reference')
        bad('C04', not c.fds(st), 'stopping the tracker leaves %d descriptors open' % len(c.fds(st)), 'fds-stop')
    # descriptors
    p = cell('process')
    fds = c.fds(st)
    if c.kind in ('process', 'pctor'): p = ('p', PROC, 0)
    if c.kind in ('process', 'pctor'):
        m = st.mem.get(PROC) or {}
        here = []; unknown = False
        for q in ('out', 'in', 'err'):
            if ('Process', q) not in W.off: unknown = True; break
            for j in (0, 4):
                v2 = m.get(W.f('Process', q) + j)
                if v2 is None or v2[0] == UNDEF:
                    if c.kind == 'pctor': bad('C04', False, 'a new process object has a descriptor that was never set', 'unset')
                    else: unknown = True
                    continue
                if v2[0] == -1: continue
                k = fdnum(v2[0])
                if k is None: unknown = True
                else: here.append(k)
        bad('C04', None if unknown else set(here) <= set(fds), '%s is left %s with a closed descriptor in the process object' % (c.entry, how), 'stale-fd')
        bad('C04', None if unknown else set(fds) <= set(here), '%s is left %s with an open descriptor that is in no process object' % (c.entry, how), 'lost-fd')
        ai = m.get(W.f('Process', 'action_initialized')) if ('Process', 'action_initialized') in W.off else None
        if ai is not None and is_num(ai[0]): bad('C04', {True: not st.mon.get('act'), False: bool(st.mon.get('act')), None: None}[eq(st, ai[0], 0)], '%s is left %s with the set-up of a spawn %s' % (c.entry, how, 'forgotten' if st.mon.get('act') else 'that is not there'), 'act-flag')
        if c.kind == 'process' and c.entry == 'start' and kind == 'ret' and v is not None and is_num(v) and not init_started(c): bad('C04', {True: not fds, False: True, None: None}[eq(st, v, 0)], 'a start that failed leaves %d descriptors open' % len(fds), 'fds-failed')
    elif c.kind == 'pdtor':
        bad('C04', not fds, 'the process object is destroyed with %d descriptors open' % len(fds), 'fds-dtor')
        bad('C04', not st.mon.get('act'), 'the process object is destroyed with the set-up of the spawn', 'act-dtor')
        if st.mon.get('wasrunning') and eq(st, T.A(('env', 'running')), 0) is not True:
            bad('C05', st.mon.get('life') in ('ended', 'gone') or 9 in st.mon.get('sig', ()), 'the process object is destroyed although the process may be running and was never killed', 'released')
    elif c.kind == 'user':
        n = I.null_state(st, p) if p is not None else None
        run = st.mem.get(p[1], {}).get(W.f('Process', 'running')) if p is not None and is_ptr(p) and n is not True else None
        if n is True: bad('C04', not fds, '%s is left %s with %d descriptors of no process open' % (c.entry, how, len(fds)), 'fds-none')
        elif is_ptr(p) and p[1][0] == 'heap' and not st.mon.get('spawned'):
            bad('C04', not fds, '%s is left %s with %d descriptors open although the process was not started' % (c.entry, how, len(fds)), 'fds-failed')
            bad('C04', not st.mon.get('act'), '%s is left %s with the set-up of a spawn that failed' % (c.entry, how), 'act-failed')
        if n is not True and p is not None and is_ptr(p) and st.mem.get(p[1]):
            here = []; unknown = False
            for m in ('out', 'in', 'err'):
                if ('Process', m) not in W.off: unknown = True; break
                for j in (0, 4):
                    v2 = st.mem[p[1]].get(W.f('Process', m) + j)
                    v2 = v2[0] if v2 else None
                    if v2 == -1: continue
                    k = fdnum(v2)
                    if k is None: unknown = True
                    else: here.append(k)
            bad('C04', None if unknown else set(here) <= set(fds), '%s is left %s with a process object that refers to a closed descriptor' % (c.entry, how), 'stale-fd')
            bad('C04', None if unknown else set(fds) <= set(here), '%s is left %s with an open descriptor that no process object refers to' % (c.entry, how), 'lost-fd')
    elif c.kind == 'dtor': bad('C04', not fds, 'the object is destroyed with %d descriptors open' % len(fds), 'fds-dtor')
    if 'cwd' in st.mon: bad('C04', st.mon['cwd'] == 'old', '%s is left %s in another working directory' % (c.entry, how), 'cwd')
    # results
    if c.kind == 'user':
        r = st.mon.get('result')
        true_ = None
        if kind == 'ret' and v is not None and is_num(v): true_ = {True: False, False: True, None: None}[eq(st, v, 0)]
        k = c.f.src
        if k in RESULTS:
            if r is None:
                if kind == 'ret': bad('C06', {True: False, False: True, None: None}[true_] if true_ is not None else None, '%s reports success without an exchange' % k, 'no-exchange')
            else:
                if r[1] != RESULTS[k]:
                    if kind == 'ret': bad('C06', (not true_) if true_ is not None else None, '%s reports success although the exchange returned %s' % (k, r[1]), 'success-%s' % r[1])
                    tr = cell('tracking')
                    if tr is not None and is_num(tr): bad('C06', eq(st, tr, 0), 'tracking goes on after %s returned %s' % (k, r[1]), 'tracking-%s' % r[1])
                    if r[1] == 'TRAX_ERROR': bad('C06', I.null_state(st, p) if p is not None else None, 'the tracker is not stopped after the exchange failed', 'not-stopped')
                else:
                    if kind == 'ret': bad('C06', true_, '%s reports failure although the exchange succeeded' % k, 'failure')
        if k in ('query', 'reset') and kind == 'ret' and true_ is not False:
            bad('C06', True if true_ is True and st.mon.get('connected') == 1 else False if true_ is True else None, '%s reports success without a connection' % k, 'unconnected')
            pv = T.A(('env', 'parameter'))
            if st.mon.get('asked_version'): bad('C06', le(st, pv, W.C['TRAX_VERSION']) is True, '%s reports success with a tracker of an unsupported version' % k, 'version')
    b = st.mon.get('built', ())
    bad('C06', not b, '%s builds an error object that is never thrown' % c.entry, 'unthrown')
    # threads
    if c.kind == 'dtor' and kind == 'ret':
        J = st.mon.get('joined', ())
        names = {W.f('State', t): t for t in ('watchdog_thread', 'logger_thread') if ('State', t) in W.off}
        got = {names.get(j[0]): j for j in J}
        for t, flag in (('watchdog_thread', 'watchdog_active'), ('logger_thread', 'logger_active')):
            if t not in names.values(): continue
            bad('C07', t in got, 'the object is destroyed without waiting for its thread %s' % t, 'join-%s' % t)
            if t in got and flag in W.flags:
                bad('C07', flag in got[t][3], 'the thread %s is waited for before it was told to stop' % t, 'told-%s' % t)
        for j in J:
            kind_ = {'watchdog_thread': 'watchdog', 'logger_thread': 'logger'}.get(names.get(j[0]))
            c.joins.append((kind_, tuple(x[1] for x in j[1]), j[2]))
    if c.kind == 'ctor' and kind == 'ret':
        n = len(st.mon.get('created', ()))
        bad('C07', n == 2 or None, 'the constructor starts %d threads' % n, 'threads')
    c.locks |= st.mon.get('locks', frozenset())

MU = ('ext', 'the lock'); LK = ('ext', 'the scope')
SEQS = {   # class of the lock -> steps: (class, function, lock held afterwards)
 'nested': [('RecursiveMutex', 'RecursiveMutex', 0), ('Mutex', 'acquire', 1), ('Mutex', 'acquire', 1), ('Mutex', 'acquire', 1), ('Mutex', 'release', 1), ('Mutex', 'release', 1), ('Mutex', 'release', 0), ('Mutex', 'acquire', 1), ('Mutex', 'acquire', 1), ('Mutex', 'release', 1), ('Mutex', 'release', 0)],
 'plain': [('Mutex', 'Mutex', 0), ('Mutex', 'acquire', 1), ('Mutex', 'release', 0), ('Mutex', 'acquire', 1), ('Mutex', 'release', 0)],
 'scope': [('RecursiveMutex', 'RecursiveMutex', 0), ('Lock', 'Lock', 1), ('Lock', 'lock', 1), ('Lock', 'unlock', 0), ('Lock', 'unlock', 0), ('Lock', 'lock', 1), ('Lock', '~Lock', 0)],
 'scope-plain': [('Mutex', 'Mutex', 0), ('Lock', 'Lock', 1), ('Lock', '~Lock', 0)],
 'other': [('RecursiveMutex', 'RecursiveMutex', 0), (None, 'other', 0), ('Mutex', 'release', 0), (None, 'gone', 0), ('Mutex', 'acquire', 1), ('Mutex', 'acquire', 1), ('Mutex', 'release', 1), ('Mutex', 'release', 0)],
}
def seq_fn(W, cls, src):
    L = [f for f in W.P.funcs.values() if f.src == src and not f.decl and f.blocks and f.name.startswith('_ZN%d%s' % (len(cls), cls)) and 'C1E' not in f.name and 'D1Ev' not in f.name and 'D0Ev' not in f.name]
    if src == 'Lock': L = [f for f in L if 'Synchronized' not in f.name]
    if src in ('Mutex', 'RecursiveMutex'): L = [f for f in L if len(f.args) == 1]
    return L[0] if len(L) == 1 else None
def sequence(W, init):
    """a lock by itself: what one thread does to it, step by step"""
    name = init['seq']; steps = SEQS[name]
    fs = [seq_fn(W, c, s) if c else None for c, s, h in steps]
    f0 = next(f for f in fs if f) if any(fs) else None
    if any(f is None and st[0] for f, st in zip(fs, steps)): return None
    c = Run(W, 'mutex', f0, init); c.joins = []; c.locks = set()
    st = core.new_state()
    refine(st, single_atom(T.A(('env', 'self'))), 1, 1 << 40)
    st.objs[MU] = ('ext', W.P.didx['Mutex']['size'], 'ext', 'lock'); st.mem[MU] = {}
    st.objs[LK] = ('ext', W.P.didx['Lock']['size'], 'ext', 'scope'); st.mem[LK] = {}
    states = [st]; incomplete = []; nsteps = 0; funcs = set()
    for i, ((cls, src, held), f) in enumerate(zip(steps, fs)):
        hist = ', '.join(s[1] for s in steps[:i + 1])
        nxt = []
        for s0 in states:
            if src == 'gone':  # and gives it back, as this thread would
                s0.mem[MU] = saved; nxt.append(s0); continue
            if f is None:    # another thread takes the lock
                saved = s0.mem[MU]; m = dict(s0.mem[MU]); o = T.A(('env', 'another thread')); refine(s0, single_atom(o), (1 << 40) + 1, 1 << 62)
                m[W.f('Mutex', 'owner')] = (o, 8); m[W.f('Mutex', 'counter')] = (atom(s0, 'its count', 1, 1 << 20), 4)
                s0.mem[MU] = m; nxt.append(s0); continue
            c.f = f; c.entry = '%s::%s' % (cls, src)
            args = [('p', LK, 0) if cls == 'Lock' else ('p', MU, 0)] + [('p', MU, 0)] * (len(f.args) - 1)
            I = Interp(W.P, c)
            before = bool(c.held(s0))
            for s2, v, k in I.call_function(f, s0, args, 'API', 0, ()):
                d = show_trace(s2.notes(12)); w = f.where(f.blocks[0][0])
                for t in reversed(d):
                    m = re.match(r'([\w./-]+:\d+): ', str(t))
                    if m: w = m.group(1); break
                h = bool(c.held(s2))
                if k != 'ret': continue
                if held: c.bad('C03', h, w, c.entry, 'after %s by one thread the lock is not held, others enter the section it guards' % hist, d, 'not-held-%s' % name)
                else: c.bad('C01', not h, w, c.entry, 'after %s the thread still holds the lock, others wait forever' % hist, d, 'still-held-%s' % name)
                if h == bool(held): nxt.append(s2)
            incomplete += list(I.incomplete); nsteps += I.nsteps; funcs |= set(I.stats['functions'])
        states = nxt[:40]
    return dict(found=c.found, edges={}, fields={}, joins=[], locks=set(), n=len(states), budget=False, incomplete=incomplete, steps=nsteps, funcs=sorted(funcs))

WORLD = None
def work(job):
    kind, name, init = job
    if kind == 'mutex':
        import traceback
        none = dict(job=job, found=[], edges={}, fields={}, joins=[], locks=set(), n=0, budget=True, incomplete=['the lock classes have other operations'], steps=0, funcs=[], t=0)
        try: z = sequence(WORLD, init)
        except build.Broken: raise
        except Exception: return dict(none, incomplete=['analysis stopped: ' + traceback.format_exc(limit=-2)[-300:].replace('\n', ' ')])
        return dict(z, job=job, t=0) if z else none
    import time, traceback
    t = time.time()
    W = WORLD
    c = None
    try:
        f = W.P.funcs[name]
        c, st, args = initial(W, kind, f, init)
        c.joins = []; c.locks = set()
        I = Interp(W.P, c)
        budget = False
        try: outs = I.call_function(f, st, args, 'API', 0, ())
        except Budget: outs = []; budget = True
        for s2, v, k in outs: finish(c, I, s2, v, k)
        return dict(job=job, found=c.found, edges=c.edges, fields=c.fields, joins=c.joins, locks=c.locks, n=len(outs), budget=budget, incomplete=list(I.incomplete), steps=I.nsteps, funcs=sorted(I.stats['functions']), t=time.time() - t)
    except build.Broken: raise
    except Exception:
        return dict(job=job, found=c.found if c else [], edges={}, fields={}, joins=[], locks=set(), n=0, budget=True, incomplete=['analysis stopped: ' + traceback.format_exc(limit=-2)[-300:].replace('\n', ' ')], steps=0, funcs=[], t=time.time() - t)

def jobs(W):
    J = []
    procs = [dict(proc=None, client=False), dict(proc='started', client=True), dict(proc=None, client=True), dict(proc='fresh', client=False), dict(proc='started', client=False)]
    for f in W.entries:
        if f.src == 'TrackerProcess': J.append(('ctor', f.name, {}))
        elif f.src == '~TrackerProcess': J += [('dtor', f.name, dict(p)) for p in procs]
        else: J += [('user', f.name, dict(p)) for p in procs]
    if 'stop_process' in W.state_fn: J += [('stop', W.state_fn['stop_process'].name, dict(p, timer=t)) for p in procs for t in ((0, 7) if p['proc'] else (7,))]
    for kind, name in (('watchdog', 'watchdog_loop'), ('logger', 'logger_loop')):
        f = W.state_fn.get(name)
        if f is None: continue
        for p in procs[:2] + procs[3:]:
            if kind == 'watchdog': J += [(kind, f.name, dict(p, timer=t)) for t in (0, 1, 5)]
            else: J.append((kind, f.name, dict(p)))
            J.append((kind, f.name, dict(p, flag=0)))
            J += [(kind, f.name, dict(p, flag=1, later=k, **({'timer': t} if kind == 'watchdog' else {}))) for k in (1, 2) for t in ((0, 9) if kind == 'watchdog' else (0,))]
    for f in W.process_fn:
        if f.src == 'Process': J.append(('pctor', f.name, dict(proc='fresh')))
        else: J += [('pdtor' if f.src == '~Process' else 'process', f.name, dict(proc=x)) for x in ('fresh', 'started')]
    J += [('mutex', next(iter(W.process_fn)).name, dict(seq=k)) for k in SEQS] if W.process_fn else []
    J.sort(key=lambda j: 0 if j[0] in ('watchdog', 'logger') or 'started' == j[2].get('proc') else 1)
    return J

def run_all(tier='quick'):
    global WORLD
    WORLD = World()
    import multiprocessing, os
    J = jobs(WORLD)
    if tier == 'thorough': J += [(k, n, dict(i, verbosity=v)) for k, n, i in J for v in (0, 1) if k != 'ctor']
    out = []
    def go(L):
        if not L: return []
        with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as p: r = p.map(work, L, chunksize=1)
        out.extend(r); return r
    # the two big steps first: what they take is part of their contracts
    step = lambda j: 0 if j[0] == 'stop' else 1 if j[0] == 'user' and WORLD.P.funcs[j[1]].src == 'query' else 2
    locks = lambda R: frozenset().union(*[r['locks'] for r in R]) if R else frozenset()
    WORLD.stop_locks = locks(go([j for j in J if step(j) == 0]))
    WORLD.start_locks = locks(go([j for j in J if step(j) == 1]))
    go([j for j in J if step(j) == 2])
    return out

THREADS = {'user': ('user',), 'ctor': ('user',), 'dtor': ('user',), 'stop': ('user', 'watchdog'), 'watchdog': ('watchdog',), 'logger': ('logger',), 'mutex': (), 'process': ('user',), 'pdtor': ('user',), 'pctor': ('user',)}
PUBLIC = ('query', 'reset', 'initialize', 'frame', 'wait', 'ready', 'register_watchdog', 'TrackerProcess', '~TrackerProcess')
RULE = {
 'C01': 'no lock is requested while the same thread holds it (unless recursive), the order of locks of different threads has no cycle, every way out of a function releases what it took, no thread is joined and no condition awaited while a lock is held that the other side needs',
 'C02': 'the timer is set at every exchange, and zero on every way out; the watchdog thread stops the tracker exactly when the timer runs out or a callback asks',
 'C03': 'for every shared member the locks held at all its accesses have a lock in common (outside construction and destruction)',
 'C04': 'on every path of the start, the stop and the destruction each descriptor is closed exactly once, spawn actions are released, and the directory is restored',
 'C05': 'asking, terminating and killing come in this order with a look at the process in between; no signal to an ended process; the reference is dropped last',
 'C06': 'a call reports success only on a path where its exchange succeeded; after an error the tracker is stopped; built errors are thrown',
 'C07': 'on every path of the destructor both threads are told to stop and joined before what they use is released; the loops look at the flag in every round',
}
def run(pid, tier):
    R = run_all(tier)
    W = WORLD
    r = Result('Every public method of TrackerProcess, its thread functions and the stop are interpreted abstractly over LLVM IR, with exceptional edges, in every state of the process and the session, against models of the operating system and the native client. Rule: %s.' % RULE[pid])
    have = {f.src for f in W.entries}
    gone = [x for x in PUBLIC if x not in have]
    if gone: raise build.Broken('public methods not found: %s' % ', '.join(gone))
    for x in ('start_process', 'stop_process', 'watchdog_loop', 'logger_loop'):
        if x not in W.state_fn: r.inconclusive.append('State::%s does not exist, what it did is not analysed by itself' % x)
    
    steps = 0; funcs = set(); paths = 0
    for x in R:
        steps += x['steps']; funcs |= set(x['funcs']); paths += x['n']
        nm = '%s %s %s' % (x['job'][0], W.P.funcs[x['job'][1]].src if x['job'][0] != 'mutex' else '', x['job'][2])
        if x['budget']: r.inconclusive.append('%s: not finished' % nm)
        for i in x['incomplete'][:3]: r.inconclusive.append('%s: %s' % (nm, i[-200:]))
        for p, ok, where, fn, what, d, key in x['found']:
            if p == pid: r.ob(ok, where, fn, what, d, '%s: %s' % (fn, key))
    if pid == 'C01': cycles(r, R); joins(r, R)
    if pid == 'C03': guarded(r, R, W)
    r.inconclusive = sorted(set(r.inconclusive))
    r.coverage = {'runs': len(R), 'ways_out': paths, 'instructions': steps, 'functions': sorted(funcs)}
    r.sample({'rule': RULE[pid], 'entries': sorted({W.P.funcs[x['job'][1]].src for x in R})})
    r.assumptions = ['one user thread per TrackerProcess object', 'the C++ wrapper of the native client and the standard library do not throw',
                     'what the native client does inside an exchange is decided under S01-S07 and M01-M02; here it ends with any result, after any traffic reported to the logger']
    return r

def all_edges(R):
    """(first lock, second lock) -> thread -> [(locks held, where, function, trace)]"""
    E = {}
    for x in R:
        for e, m in x['edges'].items():
            for t in THREADS[x['job'][0]]:
                L = E.setdefault(e, {}).setdefault(t, {})
                for h, ev in m.items(): L.setdefault(h, ev)
    return E
def cycles(r, R):
    E = all_edges(R)
    succ = {}
    for a, b in E: succ.setdefault(a, set()).add(b)
    seen = set()
    def search(path):
        a = path[-1]
        for b in sorted(succ.get(a, ())):
            if b == path[0] and len(path) > 1: check(path)
            elif b not in path and len(path) < 4 and b > path[0]: search(path + [b])
    def check(path):
        es = list(zip(path, path[1:] + path[:1]))
        def pick(i, used, gates, evs):
            """a different thread for every edge, and no lock that keeps them apart"""
            if i == len(es): return evs
            for t, L in sorted(E[es[i]].items()):
                if t in used: continue
                for h, ev in L.items():
                    g = h - {es[i][0]}
                    if any(g & x for x in gates): continue
                    z = pick(i + 1, used | {t}, gates + [g], evs + [(t, ev)])
                    if z: return z
            return None
        z = pick(0, frozenset(), [], [])
        key = 'cycle ' + ' '.join(path)
        if z:
            d = []
            for (t, ev), e in zip(z, es): d += ['the %s thread takes %s while it holds %s at %s in %s:' % (t, e[1], e[0], ev[0], ev[1])] + ['   ' + str(l) for l in ev[2]]
            r.ob(False, z[0][1][0], z[0][1][1], 'locks are taken in opposite orders: %s' % ', '.join('%s after %s by the %s thread' % (e[1], e[0], t) for (t, ev), e in zip(z, es)), d, key)
    for a in sorted(succ): search([a])
    for e in E: r.ob(True, '', '', '')
    r.sample({'lock order': ['%s < %s (%s)' % (a, b, ', '.join(sorted(t))) for (a, b), t in sorted(E.items())]})
def joins(r, R):
    takes = {}
    for x in R:
        for t in THREADS[x['job'][0]]: takes.setdefault(t, set()).update(x['locks'])
    for x in R:
        for who, held, where in x['joins']:
            b = sorted(set(held) & takes.get(who, set()))
            r.ob(not b, where, x['job'][0], 'the thread of the %s is waited for while holding %s, which it takes' % (who, ', '.join(b)), [], 'join %s' % who)
def guarded(r, R, W):
    acc = {}
    for x in R:
        for m, A in x['fields'].items():
            for k, ev in A.items():
                for t in THREADS[x['job'][0]]: acc.setdefault(m, {}).setdefault(k, (t, ev))
    for m in W.guarded:
        A = acc.get(m, {})
        if not A: r.inconclusive.append('no access to %s was seen' % m); continue
        n = {}
        for (w, k, h) in A:
            for l in h: n[l] = n.get(l, 0) + 1
        lock = max(sorted(n), key=lambda l: n[l]) if n else None
        threads = {t for t, ev in A.values()}
        for (w, k, h), (t, ev) in sorted(A.items(), key=repr):
            if lock in h: r.ob(True, w, ev[0], '')
            elif len(threads) < 2: r.ob(True, w, ev[0], '')
            else: r.ob(False, w, ev[0], 'the shared member %s is accessed (%s) by the %s thread without %s' % (m, k, t, lock or 'a lock'), ev[1], '%s at %s' % (m, ev[0]))
        r.sample({'member': m, 'lock': lock, 'accesses': len(A), 'threads': sorted(threads)})

if __name__ == '__main__':
    import time, sys
    t = time.time()
    R = run_all()
    print('%.1fs' % (time.time() - t))
    for r in R:
        if r['budget'] or r['incomplete'] or r['t'] > 5: print(r['job'][0], r['job'][1][:60], r['job'][2], r['n'], 'BUDGET' if r['budget'] else '', [x[-160:] for x in r['incomplete'][:2]], r['steps'], '%.1f' % r['t'])
    cnt = {}; seen = set()
    for r in R:
        for pid, ok, where, fn, what, d, key in r['found']:
            z = cnt.setdefault(pid, [0, 0, 0]); z[0 if ok is True else 1 if ok is False else 2] += 1
            if ok is not True and (pid, ok, where, fn, what) not in seen:
                seen.add((pid, ok, where, fn, what)); print(pid, ok, where, fn, what, r['job'][2])
                if '-v' in sys.argv and ok is False:
                    for x in d: print('      ', x)
    print(cnt)
    E = {}
    for r in R:
        for e, x in r['edges'].items(): E.setdefault(e, set()).add(r['job'][0])
    for e in sorted(E): print(e, E[e])
