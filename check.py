#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property by static analysis of /repo's current source.

exit 0  no violation (known findings are printed), exit 1  violation (VIOLATION line), exit 2  the analysis is broken."""
import sys, os, time, json, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
EVD = os.environ.get('TRAX_EVIDENCE') or os.path.join(HERE, 'evidence')
import build

# property -> modules whose run(property, tier) contributes a result.Result
PARTS = {}
def reg(mod, *ids):
    for i in ids: PARTS.setdefault(i, []).append(mod)
import registry
registry.register(reg)

def known():
    """known-findings file: 'known: property=<id> key=<key> -- text' (fixed entries suppress nothing)"""
    r = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                a, _, txt = l[len('known: '):].partition(' -- ')
                pid, _, key = a.partition(' key=')
                r[(pid[len('property='):], key.strip())] = txt.strip()
    return r

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    if pid not in PARTS:
        print('unknown property %s' % pid); return 2
    viol = []; obligations = 0; discharged = 0; cov = {}; expl = []; assume = []; incon = []; samples = []
    try:
        for mod in PARTS[pid]:
            r = importlib.import_module(mod).run(pid, tier)
            viol += r.violations
            obligations += r.obligations; discharged += r.discharged
            for k, v in r.coverage.items():
                cov[k] = cov[k] + v if k in cov and isinstance(v, (int, list)) else v
            expl.append(r.explanation); assume += r.assumptions; incon += r.inconclusive; samples += r.samples
    except build.Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e)); return 2
    kn = known()
    new = {}; old = {}
    for v in viol:
        key = v.key
        if (pid, key) in kn: old.setdefault(key, v)
        else: new.setdefault((v.where, v.what), v)
    for k in sorted(old): print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, k)]))
    c = {'explanation': ' '.join(expl), 'obligations': obligations, 'discharged': discharged, 'undecided': len(incon)}
    c.update(cov)
    if samples: c['samples'] = samples[:12]
    if incon: c['undecided_list'] = incon[:40]
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': 'other',
          'coverage': c, 'assumptions': sorted(set(assume)), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(EVD, exist_ok=True)
    json.dump(ev, open(os.path.join(EVD, pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d violations, %d known findings, %.1f s' % (pid, tier, obligations, discharged, len(incon), len(new), len(old), time.time() - t0))
    if new:
        path = os.path.join(EVD, pid + '.violation.txt')
        with open(path, 'w') as f:
            for v in new.values(): f.write(v.text() + '\n\n')
        for v in list(new.values())[:10]: print('  ' + v.text().replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0

if __name__ == '__main__':
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
