#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'W01': 'Windows structured exception handling: the code is compiled only with a Windows compiler and headers, none of which are here, so there is no intermediate representation to execute symbolically'}
checks, na = [], []
for p in props:
    i = p['id']
    if i in jobs.claimed():
        js = jobs.for_property(i)
        sched = any(j.get('opts', {}).get('preempt') is not None for j in js)
        tech = 'symbolic execution of the compiler IR with an SMT solver (Z3)' + (', symbolic schedules' if sched else '')
        note = 'Decided for every value and path within: ' + '; '.join(dict.fromkeys(f'{j["name"]}: {j["bound"]}' for j in js if j.get('bound'))) + '. Assumes: ' + '; '.join(jobs.ASSUME + jobs.META.get(i, {}).get('assume', [])) + '.'
        checks.append(dict(property=i, quick_cmd=f'python3 vf.py {i} quick', thorough_cmd=f'python3 vf.py {i} thorough', evidence_file=f'evidence/{i}.json', technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=na)
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
