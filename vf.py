#!/usr/bin/env python3
"""Runs the solver-based checks: builds LLVM IR of /repo's current sources with a harness, executes it symbolically
with engine/symx (Z3 decides), replays what it finds against the natively compiled code, writes evidence."""
import json, os, sys, subprocess, tempfile, shutil, time, glob, re
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
P = [f'-D{p}_{a}={b}' for p in ('RAII', 'ZE') for a, b in (('MALLOC', 'malloc'), ('FREE', 'free'), ('REALLOC', 'realloc'), ('CALLOC', 'calloc'), ('MEMALIGN', 'memalign'))]
CONF = ['-DUSE_DEBUG', f'-I{REPO}/include', *P, '-D_GNU_SOURCE', '-include', 'stdlib.h', '-include', 'malloc.h', '-include', 'stdbool.h', '-DC_API=extern', '-DFORCEINLINE=inline __attribute__((always_inline))', f'-I{HERE}/engine', f'-I{HERE}/harness', f'-I{HERE}/harness/win', f'-I{REPO}']
CLANG = ['clang-18', '-std=gnu89', '-include', f'{HERE}/engine/shim.h', *CONF, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fPIC', '-ffp-contract=off', '-U_FORTIFY_SOURCE', '-fno-builtin', '-Wno-everything', '-S', '-emit-llvm']
GCC = ['gcc', '-std=gnu90', *CONF, '-fPIC', '-g', '-w', '-Wno-return-type']
WRAP = '-Wl,' + ','.join('--wrap=' + s for s in ('malloc', 'calloc', 'realloc', 'free', 'memalign', '_Exit', 'thrd_create', 'pthread_create'))
QUICK = 360 # seconds after which a quick check stops deciding in general
SYMX = os.path.join(os.environ.get('VF_BUILD', HERE + '/build'), 'symx')

def run(cmd, timeout=600, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=timeout, **k)

class Err(Exception):
    pass

def must(cmd, **k):
    r = run(cmd, **k)
    if r.returncode:
        raise Err('command failed: ' + ' '.join(cmd[:3]) + ' ... ' + cmd[-1] + '\n' + r.stderr[-3000:])
    return r

def build_ir(tmp, files, pool):
    """IR of every library source and of every harness file used."""
    jobs = []
    for f in sorted(glob.glob(REPO + '/src/*.c')):
        jobs.append(CLANG + ['-DSYMX=1', f, '-o', f'{tmp}/src_{os.path.basename(f)}.ll'])
    for f in files:
        jobs.append(CLANG + ['-DSYMX=1', f'{HERE}/harness/{f}', '-o', f'{tmp}/h_{f}.ll'])
    jobs.append(['clang-18', '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-builtin', '-Wno-everything', '-S', '-emit-llvm', f'{HERE}/engine/sxlibc.c', '-o', f'{tmp}/libc.ll'])
    list(pool.map(must, jobs))

def link_job(tmp, job):
    out = f'{tmp}/{job["name"]}.bc'
    if os.path.exists(out):
        return out
    mainc = f'{tmp}/main_{job["entry"]}.c'
    open(mainc, 'w').write(f'int {job["entry"]}(void); int main(void) {{ return {job["entry"]}(); }}\n')
    must(['clang-18', '-O0', '-g', '-S', '-emit-llvm', '-Wno-everything', mainc, '-o', mainc + '.' + job['name'] + '.ll'])
    srcs = job.get('srcs')
    files = sorted(glob.glob(f'{tmp}/src_*.ll')) if srcs is None else [f'{tmp}/src_{s}.c.ll' for s in srcs]
    must(['llvm-link-18', '-o', out, mainc + '.' + job['name'] + '.ll', f'{tmp}/h_{job["file"]}.ll', *files, f'{tmp}/libc.ll'])
    return out

def build_native(tmp, job, variant):
    exe = f'{tmp}/nat_{job["name"]}_{variant}'
    if os.path.exists(exe):
        return exe
    fl = {'O3': ['-O3', '-fomit-frame-pointer'], 'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-sanitize-recover=undefined']}[variant]
    mainc = f'{tmp}/nmain_{job["entry"]}.c'
    open(mainc, 'w').write(f'int {job["entry"]}(void); int main(void) {{ return {job["entry"]}(); }}\n')
    srcs = [f'{REPO}/src/{s}.c' for s in job['srcs']] if job.get('srcs') else sorted(glob.glob(REPO + '/src/*.c'))
    objs, procs = [], []
    for f in srcs + [f'{HERE}/harness/{job["file"]}']:
        o = f'{tmp}/n_{variant}_{os.path.basename(f)}.o'
        objs.append(o)
        if not os.path.exists(o):
            procs.append(GCC + fl + ['-c', f, '-o', o])
    rt = f'{tmp}/n_{variant}_sxrt.o'
    objs.append(rt)
    if not os.path.exists(rt):
        procs.append(['gcc', '-O1', '-g', '-w', '-I' + HERE + '/engine', '-c', f'{HERE}/engine/sxrt.c', '-o', rt])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(must, procs))
    must(['gcc', *fl, '-w', mainc, *objs, '-o', exe, '-rdynamic', WRAP, '-lpthread', '-lm'])
    return exe

def native(tmp, job, variant, inputs, params, timeout=20):
    exe = build_native(tmp, job, variant)
    fd, rf = tempfile.mkstemp(dir=tmp)
    with os.fdopen(fd, 'w') as f:
        for n, v in inputs:
            assert ' ' not in n, n
            f.write(f'i {n} {v}\n')
        for k, v in params.items():
            f.write(f'p {k} {int(v) & (2**64-1)}\n')
    env = dict(os.environ, SX_REPLAY=rf, SX_VERBOSE='1', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=0:handle_abort=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1:exitcode=78')
    sand = tempfile.mkdtemp(dir=tmp)
    try:
        r = run(['setarch', '-R', exe] if shutil.which('setarch') else [exe], timeout=timeout, env=env, cwd=sand)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = 'timeout', (e.stderr or b'').decode('utf8', 'replace') if isinstance(e.stderr, bytes) else (e.stderr or '')
    done = 'SX-DONE' in err
    m = re.search(r'^SX-(ASSERT-FAIL|HEAP|UNEXPECTED-EXIT|ASSUME-FAIL).*', err, re.M)
    san = re.search(r'^.*(AddressSanitizer|runtime error).*', err, re.M)
    what = m.group(0) if m else san.group(0) if san else ('did not finish' if rc == 'timeout' else '' if done else f'died: status {rc}')
    covers = set(re.findall(r'^SX-COVER (.*)$', err, re.M))
    return {'variant': variant, 'status': rc, 'done': done, 'what': what.strip()[:300], 'covers': covers, 'assume': 'SX-ASSUME-FAIL' in err}

def undecided(d):
    """The engine ran into a limit of the solver or of time, not into something it does not model."""
    return bool(d.get('slow') or (not d.get('violations') and d.get('inconclusive') and all(re.match(r'time limit|path limit|sx_close|solver|unknown|query', x) for x in d['inconclusive'])))

def symx(bc, job, params, tmp, tag, extra=(), deadline=None):
    out = f'{tmp}/{tag}.json'
    o = job.get('opts', {})
    cmd = [SYMX, bc, '-o', out]
    left = float(o.get('max-time', 600))
    if deadline is not None:
        left = min(left, deadline - time.time() - 20)
        if left < 1:
            return {'error': 'engine exceeded its time limit', 'cmd': cmd, 'slow': True}
    o = dict(o, **{'max-time': int(left)})
    for k, v in o.items():
        if v is True:
            cmd.append('--' + k)
        elif v is not False:
            cmd += ['--' + k, str(v)]
    for k, v in params.items():
        cmd += ['--p', f'{k}={v}']
    cmd += list(extra)
    try:
        r = run(cmd, timeout=left + (20 if deadline is not None else 200))
    except subprocess.TimeoutExpired:
        return {'error': 'engine exceeded its time limit', 'cmd': cmd, 'slow': True}
    try:
        d = json.load(open(out))
    except Exception as e:
        return {'error': f'engine failed ({r.returncode}): {r.stderr[-800:]} {e}', 'cmd': cmd}
    d['rc'] = r.returncode
    return d

def load_known():
    k = []
    p = HERE + '/known-findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                k.append(json.loads(l))
    return k

def match_known(known, prop, job, v):
    for k in known:
        if k['property'] == prop and k.get('entry') == job['entry'] and k['kind'] == v['kind'] and k['msg'] == v['msg'] and (not k.get('where') or k['where'] in (v['loc'] + ' | ' + v['stack'])) and all(dict(v['inputs']).get(n) == x for n, x in k.get('inputs', {}).items()):
            return k
    return None

def expand(job, tier):
    """A job's parameter sets; each is one engine run."""
    ps = job.get('params', [{}])
    if tier == 'thorough':
        ps = job.get('thorough', ps)
    return ps

def main():
    import jobs
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    keep = verbose = False
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '-v':
            verbose = True
        elif a.startswith('-j'):
            only = a[2:]
    t0 = time.time()
    js = [j for j in jobs.for_property(prop) if (not only or j['name'] == only) and not (tier == 'quick' and j.get('tier') == 'thorough')]
    if not js:
        print('no such property', prop)
        return 2
    if not os.path.exists(SYMX):
        must(['bash', HERE + '/engine/build.sh'])
    tmp = tempfile.mkdtemp(prefix='vf_' + prop + '_')
    try:
        return check(prop, tier, js, tmp, t0, verbose)
    except Err as e:
        print('ERROR', e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, js, tmp, t0, verbose):
    import jobs
    known = load_known()
    with ThreadPoolExecutor(int(os.environ.get('VF_JOBS', '8'))) as pool:
        build_ir(tmp, sorted(set(j['file'] for j in js)), pool)
        bcs = dict(zip([j['name'] for j in js], pool.map(lambda j: link_job(tmp, j), js)))
        runs = []
        for j in js:
            for i, ps in enumerate(expand(j, tier)):
                j2 = dict(j, opts=dict(j.get('opts', {}), **(j.get('topts', {}) if tier == 'thorough' else {})))
                runs.append((j2, ps, f'{j["name"]}_{i}'))
        runs.sort(key=lambda r: -r[0].get('weight', 1))
        limit = t0 + QUICK if tier == 'quick' else None
        res = list(pool.map(lambda r: symx(bcs[r[0]['name']], r[0], r[1], tmp, r[2], deadline=limit), runs))
        # what was not decided in general is decided for restrictions of the inputs to single values at the hard operations
        again = [i for i, d in enumerate(res) if undecided(d)]
        probed, partial = set(), set()
        if again:
            for i, d in zip(again, pool.map(lambda i: symx(bcs[runs[i][0]['name']], dict(runs[i][0], opts=dict(runs[i][0].get('opts', {}), **{'max-time': 100, 'qto': 5000, 'hto': 5000})), runs[i][1], tmp, runs[i][2] + 'p', ['--probe', '24'], deadline=t0 + QUICK + 300 if limit else None), again)):
                if 'error' not in d and (d['violations'] or (not d['inconclusive'] and d['paths'])):
                    res[i] = d
                    probed.add(i)
                elif d.get('slow') or undecided(d): # time ran out: keep whichever explored more, and say so
                    partial.add(i)
                    if 'error' not in d and d['paths'] > res[i].get('paths', -1):
                        res[i] = d
                    elif 'error' in res[i]:
                        res[i] = {'violations': [], 'inconclusive': ['time limit'], 'functions': [], 'covers': {}, 'samples': [], **{k: 0 for k in ('paths', 'instrs', 'forks', 'branches', 'asserts', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'switches', 'wall_s')}}
    errors, viol, knownhit = [], [], []
    restricted, unfinished, loose = [], [], set()
    funcs, covers, tot = set(), {}, {}
    samples, details = [], []
    for i, ((j, ps, tag), d) in enumerate(zip(runs, res)):
        if i in probed:
            restricted.append(tag)
            loose.add(j['name'])
        if 'error' in d:
            errors.append(f'{tag}: {d["error"]}')
            continue
        if i in partial:
            unfinished.append(tag)
            loose.add(j['name'])
        if verbose:
            print(tag, {k: (round(d[k], 2) if isinstance(d[k], float) else d[k]) for k in ('paths', 'instrs', 'queries', 'asserts', 'solver_s', 'wall_s')}, 'viol', len(d['violations']), d['inconclusive'])
        funcs.update(f for f in d['functions'] if not f.startswith(('h_', 'sxlibc', 'main_', 'sx.h')))
        for c, n in d['covers'].items():
            covers.setdefault(j['name'], {}).setdefault(c, 0)
            covers[j['name']][c] += n
        for k in ('paths', 'instrs', 'forks', 'branches', 'asserts', 'queries', 'sat', 'unsat', 'unknown', 'solver_s', 'switches'):
            tot[k] = tot.get(k, 0) + d[k]
        details.append({'run': tag, 'params': ps, 'paths': d['paths'], 'asserts': d['asserts'], 'queries': d['queries'], 'solver_s': round(d['solver_s'], 3), 'wall_s': round(d['wall_s'], 3)})
        kn = 0
        for v in d['violations']:
            k = match_known(known, prop, j, v)
            if k:
                kn += 1
                if k not in knownhit:
                    knownhit.append(k)
            else:
                viol.append((j, ps, v))
        if d['inconclusive'] and i not in partial and not (len(d['violations']) > kn):
            errors.append(f'{tag}: inconclusive: ' + '; '.join(d['inconclusive']))
        for s in d['samples']:
            samples.append((j, ps, s))
    if not viol:
        for j in js:
            miss = [c for c in j.get('covers', []) if not covers.get(j['name'], {}).get(c)]
            if miss and j['name'] not in loose and not any(e.startswith(j['name'] + '_') for e in errors):
                errors.append(f'{j["name"]}: vacuous: never reached {", ".join(miss)}')
    out = []
    # replay counterexamples against the natively compiled library
    rdir = os.environ.get('VF_EVID', HERE) + f'/replays/{prop}'
    if viol:
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
    seen = set()
    for n, (j, ps, v) in enumerate(viol):
        key = (j['name'], v['kind'], v['msg'], v['loc'])
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > 6:
            break
        rep = {'property': prop, 'job': j['name'], 'entry': j['entry'], 'harness': j['file'], 'params': ps, 'kind': v['kind'], 'msg': v['msg'], 'loc': v['loc'], 'stack': v['stack'], 'inputs': v['inputs'], 'sched': v['sched'], 'native': []}
        conf = False
        steps = v['kind'] == 'step-limit' # confirmed by a real run that does not finish, not by anything else
        for var in ('O3',) if steps else ('O3', 'asan'):
            try:
                r = native(tmp, j, var, v['inputs'], ps)
            except Exception as e:
                r = {'variant': var, 'what': 'could not run: ' + str(e)[:200], 'done': True, 'covers': [], 'assume': True}
            bad = (not r['done']) and not r['assume'] and not (steps and r['status'] != 'timeout')
            r['reproduced'] = bad
            r['covers'] = sorted(r['covers'])
            rep['native'].append(r)
            if bad:
                conf = True
                break
        if not conf:
            rf = f'{tmp}/fixed_{n}'
            with open(rf, 'w') as f:
                for nm, x in v['inputs']:
                    f.write(f'i {nm} {x}\n')
                for k, x in ps.items():
                    f.write(f'p {k} {int(x) & (2**64-1)}\n')
            d = symx(f'{tmp}/{j["name"]}.bc', j, {}, tmp, f'fix_{n}', ['--fixed', rf])
            rep['engine_replay'] = bool(d.get('violations'))
            conf = rep['engine_replay'] and not (steps and rep['native'][0]['done'] and not v['sched'])
        rep['confirmed'] = conf
        path = f'{rdir}/{len(seen)}.json'
        json.dump(rep, open(path, 'w'), indent=1)
        ins = {k: x for k, x in v['inputs'][:24]}
        print(f'  {j["name"]}: {v["kind"]}: {v["msg"]} at {v["loc"]} ({v["stack"][:200]}) inputs {ins} native: {[r["what"] or "passes" for r in rep["native"]]}')
        if conf:
            out.append(path)
        elif steps: # the real code finishes with these inputs: the path is merely longer than the bound
            unfinished.append(j['name'])
            loose.add(j['name'])
        else:
            errors.append(f'{j["name"]}: counterexample not reproduced: {v["kind"]}: {v["msg"]}')
    # validate the encoding: some explored paths, concretised, must behave the same natively
    validated, mism = 0, []
    def val(x):
        j, ps, s = x
        return native(tmp, j, 'O3', s['inputs'], ps)
    todo = []
    per = {}
    for x in samples:
        if x[0].get('native', True) and per.setdefault((x[0]['name']), 0) < x[0].get('nval', 6):
            per[x[0]['name']] += 1
            todo.append(x)
    if not viol and not errors:
        for j in {x[0]['name']: x[0] for x in todo}.values():
            build_native(tmp, j, 'O3')
        with ThreadPoolExecutor(8) as ex:
            for x, r in zip(todo, ex.map(val, todo)):
                j, ps, s = x
                if r['done'] and (s['threads'] or j.get('loose') or r['covers'] == set(s['covers'])):
                    validated += 1
                elif s['threads'] and r['status'] == 'timeout':
                    pass
                else:
                    mism.append({'job': j['name'], 'params': ps, 'inputs': s['inputs'], 'native': r['what'], 'covers_native': sorted(r['covers']), 'covers_engine': s['covers']})
    for m in mism:
        if m['native'].startswith(('SX-ASSERT-FAIL', 'SX-HEAP', 'died', 'SX-UNEXPECTED')):
            os.makedirs(rdir, exist_ok=True)
            path = f'{rdir}/native.json'
            json.dump(m, open(path, 'w'), indent=1)
            print('  native replay of an explored path fails:', m['job'], m['native'], m['inputs'][:16])
            out.append(path)
        else:
            errors.append(f'{m["job"]} {m["params"]}: native run of an explored path differs: {m["native"]} covers {m["covers_native"]} vs {m["covers_engine"]} inputs {m["inputs"][:12]}')
    meta = jobs.META.get(prop, {})
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(out),
          'coverage': {'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('instrs', 0)), 'traces_validated_against_impl': validated,
                       'samples': [{'run': j['name'], 'params': ps, 'inputs': s['inputs'][:40], 'covers': s['covers']} for j, ps, s in (samples[:4] or [])] or [{'note': 'no completed path'}],
                       'explanation': 'states: symbolic paths completed (each decided for all values of its symbolic inputs); transitions: LLVM instructions executed symbolically; traces_validated: explored paths concretised and run natively with the same outcome',
                       'functions_encoded': sorted(funcs), 'solver_queries': int(tot.get('queries', 0)), 'solver_unsat': int(tot.get('unsat', 0)), 'solver_sat': int(tot.get('sat', 0)), 'solver_unknown': int(tot.get('unknown', 0)), 'solver_s': round(tot.get('solver_s', 0), 3), 'assertions_decided': int(tot.get('asserts', 0)), 'symbolic_branches': int(tot.get('branches', 0)), 'schedule_choices': int(tot.get('switches', 0)),
                       'bounds': [f'{j["name"]}: {j.get("bound", "")}' for j in js], 'witnesses': covers, 'runs': details,
                       'decided_for_restricted_inputs_only': restricted, 'not_finished': unfinished,
                       'known_findings': [k.get('what', k['msg']) for k in knownhit]},
          'assumptions': jobs.ASSUME + meta.get('assume', [])}
    EV = os.environ.get('VF_EVID', HERE) + '/evidence'
    os.makedirs(EV, exist_ok=True)
    json.dump(ev, open(f'{EV}/{prop}.json', 'w'), indent=1)
    for k in knownhit:
        print(f'KNOWN-FINDING: property={prop} {k.get("what", k["msg"])}')
    if restricted:
        print(f'NOTE {prop}: not decided in general, only for inputs restricted to single values at the hard operations: ' + ', '.join(restricted))
    if unfinished:
        print(f'NOTE {prop}: exploration not finished within the time limit (a part of the paths was explored): ' + ', '.join(unfinished))
    for e in errors:
        print('ERROR', e)
    for p in out:
        print(f'VIOLATION property={prop} replay={p}')
    if out:
        return 1
    if errors:
        return 2
    print(f'OK {prop} ({tier}): {int(tot.get("paths", 0))} symbolic paths, {int(tot.get("asserts", 0))} assertions, {int(tot.get("queries", 0))} queries, {tot.get("solver_s", 0):.1f}s solver, {validated} native validations, {time.time() - t0:.1f}s')
    return 0

if __name__ == '__main__':
    sys.exit(main())
