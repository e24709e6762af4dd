#!/usr/bin/env python3
"""Write MANIFEST.json from checks/props.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, os.path.join(R, 'checks'))
from props import PROPS, NA
L = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': [], 'not_applicable': [], 'hooks': {'guard': 'NBSPSIM', 'enable': 'sim/build.py compiles a copy of the sources of /repo with -DNBSPSIM', 'source_commits': ['9eb494c']}}
for x in L:
    i = x['id']
    if i in PROPS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 checks/run.py %s' % i, 'thorough_cmd': 'python3 checks/run.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
          'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults, real nbspd code', 'level': 'exploration',
          'level_note': 'Sampled, not exhaustive: no violation in the seeds run. The real daemon runs inside a simulated kernel; trusts that model (threads, sockets, pipes, files, clocks, crashes) and the reference models. ' + PROPS[i]['rule'][0].upper() + PROPS[i]['rule'][1:]})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
