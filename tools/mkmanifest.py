#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
SESS = 'interprocedural abstract interpretation over LLVM IR (typestate + heap + interval/difference domain)'
CLAIMS = {}
def claim(ids, technique, note):
    for i in ids: CLAIMS[i] = (technique, note)
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
NA = {
 'N01': 'The overlap of two regions is a numeric result of a floating-point rasterisation; its value, bounds and symmetry are not visible in the shape of the code, and static analysis without execution or a solver cannot bound it.',
 'N02': 'Equality of saved and loaded trajectories depends on the digits printf and strtof produce, a runtime quantity; its structural parts (kind dispatch, buffer bounds, leak freedom) are decided under D05, M01-M04.',
 'N03': 'A bound on elapsed time between a hang and the kill depends on scheduling and clocks; the structural parts (watchdog armed and disarmed, escalation, thread teardown) are decided under C02, C05 and C07.',
 'N04': 'Run-length coding of a mask is a value-level round trip over loops bounded by pixel data; memory safety of both directions is decided under M04, the pixel equality is beyond a static argument here.',
 'N05': 'Round-trip of floating-point text and the effect of the process locale are properties of the C library at run time.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
    else: na.append({'property': i, 'reason': NA.get(i, 'Not claimed yet: the analysis that would decide it is not built.')})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py irdump', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of the current working tree of /repo: they compile it to LLVM IR with debug information (never run it) and decide the property on that IR, on the syntax tree of the Python binding, or both. No hooks are used.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
