"""write properties.jsonl and MANIFEST.json from pvc/props.py"""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'pvc'))
import props  # noqa

NOTE = ('Machine-checked contracts executed symbolically on the real source '
        'of /repo on every run; every obligation decided for all inputs by '
        'exact algebra or z3. Trusts the engine semantics of '
        'Python/numpy/pandas (cross-checked against CPython each run), z3, '
        'and exact real arithmetic in place of floating point.')
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for i, p in props.PROPS.items():
        f.write(json.dumps(dict(
            id=i, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[
                dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
        assert len(p['title']) <= 80, (i, len(p['title']))
py = '/opt/venv/bin/python verify.py'
m = dict(
    version=1, setup_cmd='/opt/venv/bin/python tools/setup.py',
    checks=[dict(property=i, quick_cmd=f'{py} {i} --tier quick',
                 thorough_cmd=f'{py} {i} --tier thorough',
                 evidence_file=f'evidence/{i}.json',
                 technique='contract-based deductive verification: symbolic '
                 'execution of the real functions against contracts, '
                 'obligations decided by exact algebra and z3',
                 level=p['level'], level_note=(p['note'] + ' ' + NOTE).strip())
            for i, p in props.PROPS.items()
            if i not in props.NOT_APPLICABLE],
    not_applicable=[dict(property=i, reason=r) for i, r in
                    props.NOT_APPLICABLE.items()])
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
