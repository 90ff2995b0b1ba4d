#!/usr/bin/env python3
"""Tries edits of /repo on a scratch copy: mut.py FILE.py where FILE defines M = [(name, file, old, new, checks), ...];
checks: ids expected to report it ('' for an edit that keeps the behaviour), '?ID,..' only run these."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = {}; exec(open(sys.argv[1]).read(), env)
only = sys.argv[2:]
def one(m):
    name, edits, ids = m[0], m[1:-1], m[-1]
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.run(['rsync', '-a', '--exclude', '.git', '/repo/', d + '/'], check=True) if shutil.which('rsync') else subprocess.run('cp -a /repo/. %s/' % d, shell=True, check=True)
        e = list(edits)
        while e:
            f, old, new = e[:3]; e = e[3:]
            p = os.path.join(d, f); s = open(p).read()
            if old not in s: return name, 'TEXT NOT FOUND in ' + f, ''
            open(p, 'w').write(s.replace(old, new, 1))
        want = '' if ids.startswith('?') else ids
        run = [x for x in ids.strip('?!').split(',') if x] or env.get('ALL', [])
        if not want: want = ''
        out = ''; got = []
        for c in run:
            x = dict(os.environ, TRAX_REPO=d, TRAX_CACHE=d + '/.cache', TRAX_EVIDENCE=d + '/.ev')
            try: r = subprocess.run([sys.executable, HERE + '/check.py', c], env=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: got.append(c + ':TIMEOUT'); continue
            if r.returncode == 1: got.append(c)
            elif r.returncode: got.append(c + ':rc%d' % r.returncode); out += r.stdout[-1500:]
            if r.returncode == 1: out += '\n'.join(l for l in r.stdout.split('\n')[1:4])[:600] + '\n'
            import json
            try: 
                u = json.load(open(d + '/.ev/%s.json' % c))['coverage']['undecided']
                if u and ids.startswith('?'): got.append('(%s undecided %d)' % (c, u))
            except Exception: pass
        return name, (('ok  ' if bool([g for g in got if '(' not in g]) == (not ids.startswith('?')) else 'BAD ') + ' '.join(got)), out
    finally: shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(6) as ex:
    for name, res, out in ex.map(one, [m for m in env['M'] if not only or any(o in m[0] for o in only)]):
        print('%-40s %s' % (name, res))
        if '-v' in os.environ.get('MUT', '') or 'BAD' in res or 'rc' in res: print('    ' + out.replace('\n', '\n    '))
