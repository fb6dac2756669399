#!/opt/venv/bin/python
"""Check of one property:  verify.py <property id> [--tier quick|thorough]

Exit 0: every obligation generated from /repo's current source was discharged
and the CPython cross-check agreed.  Exit 1: VIOLATION lines."""
import argparse
import json
import os
import sys
import time

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONHASHSEED'] = '0'
os.environ['TZ'] = 'UTC'
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PVC_CHILD') != '1':
    os.environ['PVC_CHILD'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-B',
                                      os.path.join(HERE, 'verify.py')] +
             sys.argv[1:])
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TRUSTED = [
    'pvc engine: symbolic semantics of the Python subset executed and of the '
    'numpy/pandas/scipy operations it shims (cross-checked against CPython '
    'on every run)',
    'z3 solver (verdict unsat)',
    'floating point treated as exact real arithmetic (literals read as the '
    'decimals they denote)',
    'a generic array element stands for every element of an array of any '
    'length; array elements are finite or NaN, not infinite, unless stated',
    'scipy special functions (lambertw, erf, exp1) uninterpreted',
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('--only')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import traceback
    try:
        return run(a, seed, t0)
    except Exception:
        traceback.print_exc()
        p = write_replay(a.prop, 0, dict(
            property=a.prop, obligation='generation of obligations',
            error=traceback.format_exc()))
        print(f'VIOLATION property={a.prop} replay={p} '
              'no-failing-input-found')
        return 1


def write_replay(prop, n, d):
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    p = os.path.join(HERE, 'replay', f'{prop}-{n}.json')
    with open(p, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return p


def observed(r):
    """labels of the obligations a failing input violates"""
    v = r['violation']
    return {o[0] for o in v['observed']} if v else set()


def run(a, seed, t0):
    import pvc  # noqa
    from pvc import check
    from pvc.props import PROPS
    cfg = PROPS[a.prop]
    known = json.load(open(os.path.join(HERE, 'known-findings.json')))
    wall = cfg.get('wall', 90 if a.tier == 'quick' else 400)
    mode = cfg.get('mode')
    tasks = check.tasks_for(None if mode else a.prop, cfg['specs'], a.tier,
                            seed, wall)
    if mode:
        tasks = check.mode_tasks(tasks, mode, a.tier)
    if a.only:
        tasks = [k for k in tasks if a.only in
                 check.load_spec(k.spec)[1][k.idx].name]
    results = check.run_tasks(tasks, a.procs)
    results.sort(key=lambda r: (r['spec'], r['idx'], r['combo'], r['kind']))
    obl = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    n = 0
    violations = 0
    lines = []
    kf = set()
    for r in results:
        bad = r['failed'] or r['violation'] or r['unsupported'] or \
            r.get('error') or r.get('timeout')
        if not bad:
            continue
        k = [f for f in known['findings'] if f['property'] == a.prop and
             f['case'] == r['case'] and
             set(r['failed']) | observed(r) <= set(f['obligations'])
             and not r['unsupported'] and not r.get('error')
             and not r.get('timeout')]
        if k:
            kf.add(f'KNOWN-FINDING: property={a.prop} {k[0]["what"]}')
            continue
        d = dict(property=a.prop, case=r['case'], spec=r['spec'],
                 idx=r['idx'], combo=r['combo'], kind=r['kind'],
                 function=r['func'], obligations_failed=r['failed'],
                 unsupported=r['unsupported'], trace=r.get('trace'),
                 error=r.get('error'),
                 verifier_output=r.get('fail_detail'),
                 counterexample=r['violation'],
                 replay_cmd=f'/opt/venv/bin/python /verif/replay.py '
                            f'/verif/replay/{a.prop}-{n}.json')
        p = write_replay(a.prop, n, d)
        what = ', '.join(map(str, r['failed'][:4])) or (
            r['unsupported'] and 'obligations could not be generated: ' +
            r['unsupported']) or 'CPython cross-check'
        print(f'FAILED obligation [{r["case"]}] kind={r["kind"]} '
              f'variant={r["combo"]}: {what}')
        line = f'VIOLATION property={a.prop} replay={p}'
        if not r['violation']:
            line += ' no-failing-input-found'
        lines.append((0 if r['violation'] else 1, line))
        violations += 1
        n += 1
    for k in sorted(kf):
        print(k)
    gone = sorted({(r['case'], r['skipped']) for r in results
                   if r.get('skipped')})
    for c, why in gone:
        print(f'SKIPPED contract [{c}]: its private subject is gone ({why})')
    if obl == 0 and not (gone and dis == obl and any(
            r['cross'] for r in results)) or not results:
        p = write_replay(a.prop, n, dict(property=a.prop,
                                         obligation='no obligations'))
        lines.append((1, f'VIOLATION property={a.prop} replay={p} '
                      'no-failing-input-found'))
        violations += 1
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    cases = {}
    for r in results:
        c = cases.setdefault(r['case'], dict(obligations=0, discharged=0,
                                             paths=0, cross_checked=0,
                                             bounded=r.get('bounded',
                                                           False)))
        c['obligations'] += r['obligations']
        c['discharged'] += r['discharged']
        c['paths'] += r['paths']
        c['cross_checked'] += r['cross']
    funcs = sorted({r['func'] for r in results if r['func']})
    bounded = sorted(k for k, c in cases.items() if c['bounded'])
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level=cfg['level'],
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd=f'/opt/venv/bin/python /verif/verify.py {a.prop} '
                        f'--tier {a.tier}',
            trusted_base=TRUSTED + cfg.get('trusted', []),
            functions_under_contract=funcs,
            contracts=cases,
            discharged_by=by,
            solver_calls=sum(r.get('z3_calls', 0) for r in results),
            solver_s=round(sum(r.get('solver_s', 0) for r in results), 2),
            cpython_cross_check_rows=sum(r['cross'] for r in results),
            bounded_only=bounded,
            skipped=[f'{c}: {why}' for c, why in gone],
            evaluations=sum(r['cross'] for r in results),
            distinct_nontrivial=len(cases),
            rule='an obligation is one postcondition component of one '
                 'feasible path of one contract, container kind and option '
                 'variant',
            explanation=cfg.get('explanation', 'contracts on the real '
                                'functions, discharged for all inputs')),
        assumptions=TRUSTED + cfg.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{a.prop}: {dis}/{obl} obligations discharged over '
          f'{len(cases)} contracts ({len(funcs)} functions), '
          f'{sum(r["cross"] for r in results)} CPython cross-check rows, '
          f'{time.time() - t0:.1f}s')
    if any(k == 0 for k, _ in lines):
        lines = [x for x in lines if x[0] == 0]
    for _, l in sorted(lines)[:12]:
        print(l)
    return 1 if violations else 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
