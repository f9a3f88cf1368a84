#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy: tools/seed.py ID [check...]: builds, runs the stable tests, the demo with and
without the patch, and the check of its property (or the named ones). Not used by any check."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, errors='replace', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def foreign(r, patch):
    base = subprocess.run(f'git -C {r} rev-list --max-parents=0 HEAD', shell=True, text=True, stdout=subprocess.PIPE).stdout.split()[-1]; f = None; out = []
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip(); bl = sh(f'git -C {r} blame -s --abbrev=40 {f}').stdout.splitlines()
        elif l.startswith('@@'): n = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('---') or l.startswith('+'): pass
        elif l.startswith('-'):
            if base[:30] not in bl[n - 1].split()[0].lstrip('^'): out.append((f, n))
            n += 1
        elif l.startswith(' '): n += 1
    return out
def one(i, checks):
    d = f'{V}/seeded/{i}'; meta = json.load(open(d + '/meta.json')); t = tempfile.mkdtemp(prefix='seed_'); r = t + '/repo'; dd = t + '/demo'
    try:
        sh(f'git clone -q /repo {r}'); shutil.copytree(d, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        mk = f'make -f /opt/vp/Makefile R={r} -j8 -s --no-print-directory all'
        b = sh(mk, cwd=r)
        if b.returncode: return i, 'CLEAN BUILD FAILED\n' + b.stdout[-500:]
        c = sh(f'timeout 300 bash {dd}/demo.sh', cwd=r)
        if c.returncode: return i, f'DEMO FAILS ON CLEAN {c.returncode}\n' + c.stdout[-1500:]
        bad = foreign(r, d + '/patch.diff')
        if bad: return i, f'CHANGES LINES OF OUR OWN COMMITS {bad}'
        a = sh(f'git apply {d}/patch.diff', cwd=r)
        if a.returncode: return i, 'PATCH DOES NOT APPLY ' + a.stdout
        b = sh(mk, cwd=r)
        if b.returncode: return i, 'BUILD FAILED\n' + b.stdout[-1500:]
        os.makedirs(r + '/_build/run', exist_ok=True)
        sh(f'python3 /opt/vp/runtests.py {r}/_build > {r}/_build/run/results.lines; python3 /opt/vp/results.py {t}/o.json lines:{r}/_build/run/results.lines', cwd=r)
        o = json.load(open(t + '/o.json')); miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in set(o['passed'])]
        if miss: return i, f'STABLE TESTS BROKEN {miss[:5]}'
        c = sh(f'timeout 300 bash {dd}/demo.sh', cwd=r)
        if c.returncode == 0: return i, 'DEMO PASSES WITH PATCH\n' + c.stdout[-500:]
        res = []
        for p in checks or [meta['property']]:
            k = sh(f'python3 {V}/vf.py {p} quick', env=dict(os.environ, VF_REPO=r, VF_EVID=t), cwd=V)
            line = [l for l in k.stdout.splitlines() if 'VIOLATION' in l]
            res.append(f'{p}:{["MISSED", "CAUGHT"][k.returncode == 1 and bool(line)]}(rc {k.returncode}) {line[:1]}' + (k.stdout[-300:] if k.returncode > 1 else ''))
        return i, f'demo rc {c.returncode}; ' + ' '.join(res)
    finally:
        shutil.rmtree(t, ignore_errors=True)
ids = sys.argv[1:2] if sys.argv[1:2] != ['all'] else sorted(os.listdir(V + '/seeded'))
for i in ids: print(*one(i, sys.argv[2:]), flush=True)
