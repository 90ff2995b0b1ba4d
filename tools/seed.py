#!/usr/bin/env python3
"""Development tool (no check uses it): confirms planted bugs in scratch copies and runs the checks against them.
seed.py <id>...   [--notest] [--checks ID,ID|own|all] [--jobs N]"""
import sys, os, subprocess, json, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
opt = dict((a.split('=', 1) + ['1'])[:2] for a in sys.argv[1:] if a.startswith('--'))
if not args: args = sorted(os.listdir(V + '/seeded'))
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(i):
    d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json')); out = [i, meta['property']]
    w = '/tmp/seed-' + i
    shutil.rmtree(w, ignore_errors=True)
    sh(['cp', '-a', '/repo', w])
    try:
        demo = '/tmp/demo-' + i
        shutil.rmtree(demo, ignore_errors=True); shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        ns = ['unshare', '-Urmn', 'bash', '-c']
        pre = 'ip link set lo up 2>/dev/null; mount --bind %s /repo && cd /repo && ' % w
        if '--notest' not in opt:
            r = sh(ns + [pre + 'bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh' % demo])
            out.append('clean demo %d' % r.returncode)
            if r.returncode: out.append(r.stdout[-600:])
        r = sh(['git', '-C', w, 'apply', d + '/patch.diff'])
        if r.returncode: return out + ['PATCH FAILS ' + r.stdout]
        if '--notest' not in opt:
            r = sh(ns + [pre + 'bash /opt/vp/build.sh'])
            if r.returncode: return out + ['BUILD FAILS ' + r.stdout[-1500:]]
            r = sh(ns + [pre + 'timeout 300 bash %s/demo.sh' % demo])
            out.append('patched demo %d' % r.returncode)
            r2 = sh(ns + [pre + 'bash /opt/vp/test.sh /repo/_build/out.json'])
            res = json.load(open(w + '/_build/out.json'))
            bad = [t for t in BASE if t not in res['passed']]
            out.append('tests ok' if not bad else 'TESTS FAIL %s' % bad)
        ids = opt.get('--checks', 'own')
        if ids != 'none':
            man = json.load(open(V + '/MANIFEST.json'))
            all_ids = [c['property'] for c in man['checks']]
            L = [meta['property']] if ids == 'own' else all_ids if ids == 'all' else ids.split(',')
            caught = []
            for p in L:
                if p not in all_ids: out.append('%s not claimed' % p); continue
                env = dict(os.environ, TRAX_REPO=w, TRAX_EVIDENCE='/tmp/ev-' + i)
                r = sh([sys.executable, V + '/check.py', p], env=env, cwd=V)
                if r.returncode == 1: caught.append(p); out.append('\n      ' + '\n      '.join(r.stdout.strip().split('\n')[1:4])[:500])
                elif r.returncode: out.append('check %s exits %d: %s' % (p, r.returncode, r.stdout[-500:]))
            out.append('\n    CAUGHT by %s' % ','.join(caught) if caught else '\n    MISSED')
            shutil.rmtree('/tmp/ev-' + i, ignore_errors=True)
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree('/tmp/demo-' + i, ignore_errors=True)
with ThreadPoolExecutor(int(opt.get('--jobs', '4'))) as ex:
    for o in ex.map(one, args): print('  '.join(map(str, o))); sys.stdout.flush()
