"""Run contracts symbolically; collect obligations, failures and evidence."""
from __future__ import annotations
import os
import sys
import time
import traceback


def setup(repo='/repo'):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    sys.dont_write_bytecode = True
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path:
            sys.path.append(p)
    sys.setrecursionlimit(5000)
    from pvc import instr
    instr.install(['jsonclasses'], repo)
    instr.install(['contracts'], here)
    import warnings
    warnings.simplefilter('ignore')


def prove(c, max_s=240, max_paths=6000, oblig_ms=20000):
    """Prove one contract. A dict."""
    from pvc import core, api
    from contracts import base
    e = core.Engine(max_paths=c.opts.get('max_paths', max_paths),
                    max_s=c.opts.get('max_s', max_s), oblig_ms=oblig_ms)
    res = {'contract': c.name, 'prop': c.prop, 'status': None, 'reason': ''}
    t0 = time.time()

    def path(en):
        E = api.SymE(en)
        base.standing(E)
        c.fn(E)
    core.set_engine(e)
    try:
        e.run(path)
    except core.Control as x:
        res['status'] = 'undecided'
        res['reason'] = f'{type(x).__name__}: {x}'
        res['where'] = where(x)
    except Exception as x:       # noqa: BLE001
        res['status'] = 'undecided'
        res['reason'] = f'harness error {type(x).__name__}: {x}'
        res['where'] = traceback.format_exc()[-2500:]
    finally:
        core.set_engine(None)
    if e.failures:
        res['status'] = 'failed'
    elif res['status'] is None:
        if e.unknowns:
            res['status'] = 'undecided'
            res['reason'] = 'solver gave no answer: ' + e.unknowns[0][0]
        elif e.n_oblig == 0:
            res['status'] = 'undecided'
            res['reason'] = 'no obligations (vacuous)'
        else:
            missing = [x for x in c.opts.get('covers', ()) if x not in e.covered]
            if missing:
                res['status'] = 'undecided'
                res['reason'] = f'vacuous: never reached {missing}'
            else:
                res['status'] = 'proved'
    res.update(obligations=e.n_oblig, discharged=e.n_disch, paths=e.paths,
               solver_s=round(e.solver_s, 3), wall_s=round(time.time() - t0, 3),
               queries=e.n_queries, labels={k: list(v) for k, v in e.obligations.items()},
               covered=sorted(e.covered), functions=sorted(e.functions),
               assumptions=sorted(e.assumptions))
    res['failures'] = []
    for f in e.failures:
        d = {'label': f.label, 'detail': f.detail, 'incomplete': f.incomplete}
        try:
            d['model'] = str(f.model)[:4000]
        except Exception:        # noqa: BLE001
            d['model'] = ''
        try:
            from pvc import concretize
            d['given'] = concretize.given(e, f)
        except core.Control:
            d['given'] = None
        except Exception:        # noqa: BLE001
            d['given'] = None
            d['given_error'] = traceback.format_exc()[-800:]
        res['failures'].append(d)
    return res


def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    out = [f'{os.path.basename(f.filename)}:{f.lineno} {f.name}' for f in tb
           if 'jsonclasses' in f.filename or 'contracts' in f.filename]
    return ' < '.join(reversed(out[-6:]))


def prove_by_name(args):
    name, kw = args
    from pvc.reg import CONTRACTS
    return prove(CONTRACTS[name], **kw)


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('names', nargs='*')
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    setup(a.repo)
    import contracts
    contracts.load_all()
    from pvc.reg import CONTRACTS
    names = [n for n in CONTRACTS if not a.names or any(
        n == x or n.startswith(x + '.') or (x.endswith('*') and n.startswith(x[:-1]))
        for x in a.names)]
    for n in names:
        if CONTRACTS[n].opts.get('native'):
            continue
        r = prove(CONTRACTS[n])
        print(f"{n:40s} {r['status']:10s} obl={r['discharged']}/{r['obligations']} "
              f"paths={r['paths']} t={r['wall_s']} {r['covered']} {r['reason']} {r.get('where', '')}")
        for f in r['failures']:
            print('   FAIL', f['label'], '|', f['detail'][:400])
            if a.v:
                print('      ', f['model'][:1500], f.get('given'), f.get('given_error', ''))
    return 0


if __name__ == '__main__':
    main()
