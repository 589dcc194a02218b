#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and tools/vprops.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import vprops
NA = {
    'X01': 'pure function of one argument on one object: no schedule, clock, I/O, fault or second party for a simulator to control',
    'X02': 'pure function of one document: parsing has no schedule, clock, fault or second party for a simulator to control (its I/O behaviour is claimed under G01-G03)',
    'X03': 'decided by a C++ compiler over programs: nothing is executed, so there is no run to simulate (the corpus specification is compiled by every check here, as a by-product only)',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults'
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA: na.append({'property': p, 'reason': NA[p]}); continue
    if p not in vprops.CLAIMED: na.append({'property': p, 'reason': 'check under construction'}); continue
    q = vprops.PROPS[p]
    checks.append({'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
                   'technique': q.get('technique', TECH), 'level': 'exploration', 'level_note': q['note']})
m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is a library boundary (system calls, pthread primitives, clocks, nats.h, C library file calls of the generator) replaced at link time or by preloading, so the shipped sources run unmodified. DESIGN.md describes the simulator, what each check decides, the defects repaired and the planted bugs.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
