#!/usr/bin/env python3
"""python3 tools/dbg.py FILE ENTRY [k=v ...] [-- engine options]: one engine run, for development."""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import vf
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
ex = []
if '--' in a:
    ex = a[a.index('--') + 1:]; a = a[:a.index('--')]
tmp = os.environ.get('DBG_TMP', '/tmp/w/ir'); os.makedirs(tmp, exist_ok=True)
os.system(f'rm -f {tmp}/*.bc {tmp}/*.ll')
with ThreadPoolExecutor(8) as p: vf.build_ir(tmp, [a[0]], p)
j = dict(name='dbg', file=a[0], entry=a[1])
bc = vf.link_job(tmp, j)
d = vf.symx(bc, j, dict(x.split('=') for x in a[2:]), tmp, 'dbg', ex)
if 'error' in d: print(d); sys.exit(3)
print({k: (round(v, 2) if isinstance(v, float) else v) for k, v in d.items() if k not in ('functions', 'samples', 'violations')})
for v in d['violations'][:6]: print(v['kind'], '|', v['msg'], '|', v['loc'], '|', v['stack'][:300], '|', v['inputs'][:30], v['sched'][:10])
