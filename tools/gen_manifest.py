#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = 'deterministic simulation with fault injection: seeded search over operation histories, configurations%s, judged against a reference model'
EXTRA = {'C08': ', allocation failures', 'C09': ', callback failures', 'C10': ', constructor failures', 'C12': ', allocator arenas and guarded storage', 'C13': ', reader schedules', 'C14': ', task schedules', 'C18': ', interleavings of generators', 'C19': ', adversarial generators and clocks', 'C20': ', clock stalls and jumps', 'C24': ', interrupted sleeps, clock stalls and jumps'}
NOTE = 'Sampled, not exhaustive: holds on every simulated run explored from the given seed. Real library code from /repo/src; simulated allocator, callbacks, element types, tasks and clocks.'
NA = 'pure function of its input: no schedule, clock, fault, I/O or history for a simulator to control, so this family does not apply'
checks, na = [], []
for p in props:
    i = p['id']
    if i[0] == 'N': na.append(dict(property=i, reason=NA)); continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH % EXTRA.get(i, ' and fault plans'), level='exploration', level_note=NOTE))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na, notes='Every check builds its own harness from /repo/src. A violation is replayed in two fresh processes and minimised before it is reported; replay with: python3 check.py <id> --replay <file>.'), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
