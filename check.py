#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property
   check.py --replay FILE                      run a replay file on the real code

Run with python3-vt (z3). Proves every contract of the property from /repo's
current source; see DESIGN.md for what each outcome means."""
from __future__ import annotations
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PVC_REPO', '/repo')
NATIVE = '/opt/venv/bin/python'
sys.path.insert(0, HERE)

TRUSTED = [
    'pvc (this repository): AST instrumentation, symbolic values and container models, loop rule; '
    'cross-checked by running the project test suite under instrumentation and on the container '
    'models (selftest.py)',
    'z3 5.3.2 (python3-vt)',
    'CPython 3.12 evaluation of the instrumented bytecode',
]


def native(jobs, max_s, timeout):
    """Run contracts natively on the real code in the project's interpreter."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PVC_REPO=REPO, PYTHONHASHSEED='0',
               TZ='UTC')
    env.pop('PYTHONPATH', None)
    p = subprocess.run([NATIVE, '-W', 'ignore', '-m', 'pvc.conc'], cwd=HERE, env=env,
                       input=json.dumps({'jobs': jobs, 'max_s': max_s}), capture_output=True,
                       text=True, timeout=timeout)
    if p.returncode != 0 or not p.stdout.strip():
        return {'failures': [], 'runs': 0, 'checks': 0, 'errors': [['native run', 0, p.stderr[-3000:]]]}
    return json.loads(p.stdout[p.stdout.index('{'):])


def native_parallel(jobs, max_s, nproc=8):
    from concurrent.futures import ThreadPoolExecutor
    chunks = [jobs[i::nproc] for i in range(nproc)]
    chunks = [c for c in chunks if c]
    out = {'failures': [], 'runs': 0, 'checks': 0, 'errors': []}

    def one(c):
        try:
            return native(c, max_s, max_s + 120)
        except subprocess.TimeoutExpired:
            return {'failures': [], 'runs': 0, 'checks': 0,
                    'errors': [['native run', 0, 'timeout']]}
    with ThreadPoolExecutor(nproc) as ex:
        for r in ex.map(one, chunks):
            out['failures'] += r['failures']
            out['errors'] += r['errors']
            out['runs'] += r['runs']
            out['checks'] += r['checks']
    return out


_W = {}


def _winit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _wrun(a):
    from pvc import run
    name, kw = a
    try:
        # plain data only: symbolic values do not cross processes
        return json.loads(json.dumps(run.prove_by_name((name, kw)), default=str))
    except BaseException as x:        # noqa: BLE001
        return {'contract': name, 'status': 'undecided', 'reason': f'worker: {type(x).__name__} {x}',
                'obligations': 0, 'discharged': 0, 'paths': 0, 'solver_s': 0, 'wall_s': 0,
                'queries': 0, 'labels': {}, 'covered': [], 'functions': [], 'assumptions': [],
                'failures': []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        if not d.get('job'):
            print('no failing input recorded; obligation and solver output are in the file')
            return 2
        r = native([d['job']], 60, 120)
        print(json.dumps(r, indent=1))
        return 1 if r['failures'] else 0
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    return check(a.prop, tier, seed)


def check(prop, tier, seed):
    t0 = time.time()
    from pvc import run
    setup_error = None
    names, natives, opts = [], [], {}
    try:
        run.setup(REPO)
        import contracts
        contracts.load_all([prop[1:3]])
        from pvc.reg import CONTRACTS
        for n, c in CONTRACTS.items():
            if c.prop != prop:
                continue
            opts[n] = c.opts
            (natives if c.opts.get('native') else names).append(n)
    except Exception as x:       # noqa: BLE001
        import traceback
        setup_error = traceback.format_exc()[-2500:]
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    if setup_error is not None:
        # the instrumented tree cannot be loaded: is it the code itself?
        import re as _re
        src = ''
        for f in sorted(os.listdir(f'{HERE}/contracts')):
            if f.startswith('c' + prop[1:3]):
                src += open(f'{HERE}/contracts/{f}').read()
        natives = []
        names = []
    budget = 600 if tier == 'quick' else 840
    results = []
    kw = dict(max_s=150 if tier == 'quick' else 400)
    if names:
        order = sorted(names, key=lambda n: -CONTRACTS[n].weight)
        with mp.get_context('fork').Pool(min(8, len(order)), initializer=_winit,
                                         maxtasksperchild=4) as pool:
            pend = [(n, pool.apply_async(_wrun, ((n, kw),))) for n in order]
            for n, p in pend:
                try:
                    results.append(p.get(timeout=max(5, budget - (time.time() - t0))))
                except mp.TimeoutError:
                    results.append({'contract': n, 'status': 'undecided', 'reason': 'time budget',
                                    'obligations': 0, 'discharged': 0, 'paths': 0, 'solver_s': 0,
                                    'wall_s': 0, 'queries': 0, 'labels': {}, 'covered': [],
                                    'functions': [], 'assumptions': [], 'failures': []})
            pool.terminate()
    # ---- bounded stand-ins and replays on the real code
    mult = 1 if tier == 'quick' else 10
    jobs = []
    for r in results:
        for f in r['failures']:
            f['detail'] = str(f.get('detail', ''))
            if f.get('given'):
                for k in range(40):
                    jobs.append({'contract': r['contract'], 'given': f['given'], 'n': 1,
                                 'seed': seed + k})
    nrep = len(jobs)
    bad = {r['contract'] for r in results if r['status'] != 'proved'}
    for n in names:
        k = opts[n].get('n', 150) * (20 if n in bad else 1) * mult
        jobs.append({'contract': n, 'n': k, 'seed': seed})
    for n in natives:
        jobs.append({'contract': n, 'n': opts[n].get('n', 300) * mult, 'seed': seed})
        if opts[n].get('n', 300) >= 200:
            jobs.append({'contract': n, 'n': opts[n].get('n', 300) * mult, 'seed': seed + 1})
    if setup_error is not None:
        jobs = [{'contract': f'{prop}.*', 'n': 300, 'seed': seed}]
    nat = native_parallel(jobs, 90 * (1 if tier == 'quick' else 4))
    violations = []
    for f in nat['failures']:
        violations.append({'property': prop, 'contract': f['contract'], 'obligation': f['label'],
                           'detail': f['detail'], 'input': f['input'],
                           'job': {'contract': f['contract'], 'n': 1, 'given': f['given'],
                                   'rawseed': f['seed']}})
    undecided = []
    for r in results:
        if r['status'] == 'proved':
            continue
        have = any(v['contract'] == r['contract'] for v in violations)
        if r['status'] == 'failed':
            if have:
                continue
            definite = [f for f in r['failures'] if not f['incomplete']]
            if definite:
                f = definite[0]
                violations.append({'property': prop, 'contract': r['contract'],
                                   'obligation': f['label'], 'detail': f['detail'],
                                   'verifier_output': f.get('model', ''), 'job': None,
                                   'noinput': True})
                continue
            r['reason'] = ('obligation not discharged by the structural comparison: '
                           + r['failures'][0]['label'])
        undecided.append({'contract': r['contract'], 'reason': r['reason'],
                          'where': r.get('where', '')})
    for n, s, tb in nat['errors']:
        undecided.append({'contract': n, 'reason': 'native run: ' + tb[-1200:]})
    known = load_known(prop)
    new = []
    for v in violations:
        k = [x for x in known if x['contract'] == v['contract'] and
             (not x.get('obligation') or x['obligation'] == v['obligation'])]
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
        else:
            new.append(v)
    new.sort(key=lambda v: bool(v.get('noinput')))
    proved = [r for r in results if r['status'] == 'proved']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': sum(r['obligations'] for r in results),
            'discharged': sum(r['discharged'] for r in results),
            'checker_cmd': f'python3-vt check.py {prop} --tier {tier}',
            'trusted_base': TRUSTED,
            'back_end': 'z3 5.3.2 via pvc symbolic execution of the instrumented /repo source',
            'contracts': len(results), 'contracts_proved': len(proved),
            'functions_under_contract': sorted({f for r in results for f in r['functions']}),
            'paths': sum(r['paths'] for r in results),
            'solver_queries': sum(r['queries'] for r in results),
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'per_contract': {r['contract']: {'status': r['status'], 'obligations': r['obligations'],
                                             'discharged': r['discharged'], 'paths': r['paths'],
                                             'solver_s': r['solver_s'],
                                             'labels': {k: v[0] for k, v in r['labels'].items()}}
                             for r in results},
            'undecided': undecided,
            'bounded': {'what': 'contracts and end-to-end drivers run natively on random small '
                                'inputs; never counted as proved',
                        'contracts_run': len({j['contract'] for j in jobs}),
                        'end_to_end_drivers': natives,
                        'runs': nat['runs'], 'checks': nat['checks'], 'model_replays': nrep},
        },
        'assumptions': sorted({x for r in results for x in r['assumptions']} | set(GENERAL)),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if setup_error:
        ev['coverage']['setup_error'] = setup_error
    with open(f'{HERE}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for r in results:
        print(f"{r['contract']:44s} {r['status']:10s} {r['discharged']}/{r['obligations']} "
              f"obligations, {r['paths']} paths, {r['wall_s']} s {r['reason']}")
    if setup_error:
        print('instrumented tree not loadable:\n' + setup_error)
    for u in undecided:
        print(f"undecided: {u['contract']}: {u['reason'][:300]} {u.get('where', '')[:200]}"
              ' -> bounded stand-in only')
    print(f"{prop}: {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations "
          f"discharged over {len(results)} contracts; bounded: {nat['runs']} native runs, "
          f"{nat['checks']} checks; {ev['wall_s']} s")
    if not new:
        return 0
    for i, v in enumerate(new[:5]):
        path = f'{HERE}/evidence/replay-{prop}-{i}.json'
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if i == 0 or not v.get('noinput'):
            print(f"  {v['contract']}: {v['obligation']}: {v['detail'][:500]}")
            tail = ' no-failing-input-found' if v.get('noinput') else ''
            print(f"VIOLATION property={prop} replay={path}{tail}")
    return 1


GENERAL = [
    'integers are mathematical integers (as in Python); floats are exact reals plus infinities in '
    'comparisons, arithmetic on them uninterpreted; NaN excluded',
    'str methods, re, inflection, bcrypt and datetime arithmetic are uninterpreted functions of '
    'their arguments where a value is symbolic',
    'contract environments (stub collaborators) raise only the exceptions their contract states',
]


def load_known(prop):
    p = f'{HERE}/known_findings.json'
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)).get('open', []) if x['property'] == prop]


if __name__ == '__main__':
    sys.exit(main())
