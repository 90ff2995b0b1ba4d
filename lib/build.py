"""Builds, on demand, the program views the checks analyse - always from the current working tree of /repo.

irdump (tools/irdump.cpp) is compiled once into a cache directory keyed by its source; each group of
translation units is compiled to LLVM bitcode with clang and dumped to JSON, keyed by the contents of every
source file below /repo that can be included.  Nothing is ever run from the code under analysis."""
import hashlib, os, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TRAX_REPO', '/repo')
CACHE = os.environ.get('TRAX_CACHE') or os.path.join(VERIF, 'build')

class Broken(Exception):
    """the analysis itself cannot work (missing anchor, code that does not build)"""

C_FLAGS = ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm', '-c', '-w',
           '-DTRAX_BUILD_VERSION="x"', '-DTRAX_STATIC_DEFINE']
OCT = '/usr/include/octave-8.4.0'
CLIENT_INC = ['-I%s/support/client/include' % REPO, '-I%s/support/client' % REPO]
GROUPS = {
    'core':   (['src/trax.c', 'src/region.c', 'src/message.c', 'src/base64.c', 'src/strmap.c', 'src/debug.c'], []),
    'buffer': ([os.path.join(VERIF, 'lib', 'buffers.c')], ['-Xclang', '-femit-all-decls']),
    'cxx':    (['src/traxpp.cpp', os.path.join(VERIF, 'lib', 'witness.cpp')], []),
    'client': (['support/client/client.cpp', 'support/client/process.cpp', 'support/client/threads.cpp', 'support/client/timer.cpp'], CLIENT_INC),
    'matc': (['support/matlab/helpers.cpp', 'support/matlab/traxclient.cpp'], CLIENT_INC + ['-DOCTAVE', '-DBUILD_OCTAVE', '-I' + OCT + '/octave', '-I' + OCT]),
    'mats': (['support/matlab/helpers.cpp', 'support/matlab/traxserver.cpp'], CLIENT_INC + ['-DOCTAVE', '-DBUILD_OCTAVE', '-I' + OCT + '/octave', '-I' + OCT]),
}

def repo_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for root in ('include', 'src', 'support'):
        for d, dn, fn in os.walk(os.path.join(REPO, root)):
            dn.sort()
            if 'tests' in dn: dn.remove('tests')
            for f in sorted(fn):
                if f.endswith(('.c', '.cpp', '.h', '.hpp', '.py', '.m')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise Broken('%s failed:\n%s' % (' '.join(cmd[:1] + cmd[-3:]), (p.stderr or p.stdout)[-4000:]))
    return p.stdout

def irdump():
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:20]
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'irdump-' + key)
    if not os.path.exists(exe):
        fl = run(['llvm-config-18', '--cxxflags']).split()
        tmp = exe + '.%d' % os.getpid()
        run(['clang++-18', '-O0', src] + fl + ['-fexceptions', '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.rename(tmp, exe)
    return exe

def dump(group, mode=''):
    """path of the JSON view of a group of translation units"""
    exe_f = None
    files, inc = GROUPS[group]
    key = repo_hash('%s|%s|%s' % (group, mode, open(os.path.join(VERIF, 'tools', 'irdump.cpp')).read()))
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, '%s-%s.json' % (group, key))
    if os.path.exists(out): return out
    for f in files:
        if not os.path.exists(os.path.join(REPO, f)): raise Broken('source file %s is gone' % f)
    with tempfile.TemporaryDirectory(dir=CACHE) as td, ThreadPoolExecutor(8) as ex:
        exe_f = ex.submit(irdump)
        def comp(f):
            o = os.path.join(td, os.path.basename(f) + '.bc')
            cc = ['clang-18'] if f.endswith('.c') else ['clang++-18', '-std=c++11' if not group.startswith('mat') else '-std=c++17']
            run(cc + C_FLAGS + ['-I%s/include' % REPO, '-I%s/src' % REPO] + inc + [os.path.join(REPO, f), '-o', o])
            return o
        bcs = list(ex.map(comp, files))
        tmp = os.path.join(td, 'out.json')
        run([exe_f.result(), tmp] + ([mode] if mode else []) + bcs)
        os.rename(tmp, out)
    prefix = group + '-'
    for f in os.listdir(CACHE):        # keep the cache small: only the newest few views of a group
        if f.startswith(prefix) and f.endswith('.json') and os.path.join(CACHE, f) != out:
            try:
                if len([g for g in os.listdir(CACHE) if g.startswith(prefix)]) > 4: os.unlink(os.path.join(CACHE, f))
            except OSError: pass
    return out

if __name__ == '__main__':
    import time
    if sys.argv[1:] == ['irdump']: print(irdump()); sys.exit(0)
    for g in GROUPS:
        t = time.time(); p = dump(g); print(g, p, os.path.getsize(p), '%.1fs' % (time.time() - t))
