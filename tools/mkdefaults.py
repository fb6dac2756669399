"""Writes specs/data/defaults.json: the documented values of arguments that are
left out, per property.  Run once by hand; the table is a specification and is
not rewritten by any check."""
import importlib
import inspect
import json
import os
import pkgutil
import sys
import warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
warnings.simplefilter('ignore')
import pvlib                                                  # noqa: E402
from pvc import check, props                                  # noqa: E402

SKIP = ('spa_c', '_deprecation', 'version', 'iotools.')
api = {}


def plain(v):
    if isinstance(v, (bool, int, float, str)) or v is None:
        return True
    return isinstance(v, (list, tuple)) and all(map(plain, v))


def note(name, f, mod):
    try:
        pars = inspect.signature(f).parameters.values()
    except (TypeError, ValueError):
        return
    d = {p.name: p.default for p in pars
         if p.default is not p.empty and plain(p.default)}
    if d:
        api[name] = mod, d


for info in pkgutil.walk_packages(pvlib.__path__, 'pvlib.'):
    if any(s in info.name for s in ('spa_c', '_deprecation', 'version')):
        continue
    m = importlib.import_module(info.name)
    for n, f in sorted(vars(m).items()):
        if n[0] == '_' or getattr(f, '__module__', '') != info.name:
            continue
        if inspect.isfunction(f):
            note(info.name + '.' + n, f, info.name)
        elif inspect.isclass(f):
            for k, g in sorted(vars(f).items()):
                if inspect.isfunction(g) and (k[0] != '_'
                                              or k == '__init__'):
                    note(f'{info.name}.{n}.{k}', g, info.name)
out = {}
used = {}
for p, x in props.PROPS.items():
    fs = set()
    for s in x['specs']:
        if s == 'interfaces':
            continue
        for c in check.load_spec(s)[1]:
            if c.prop == p:
                fs.add(c.func)
    used[p] = fs
claim = {}
for p, x in props.PROPS.items():
    for f in x['files']:
        claim.setdefault(f, []).append(p)
for name, (mod, d) in api.items():
    file = mod.replace('.', '/') + '.py'
    own = [p for p in used if name in used[p]
           or any(u.startswith(name + '.') for u in used[p])]
    cl = name.rsplit('.', 1)[0]
    if not own:
        own = [p for p in used if any(
            u == cl or u.startswith(cl + '.') for u in used[p])
            and cl.rsplit('.', 1)[-1][0].isupper()]
    if not own:
        own = claim.get(file, [])
        if file.startswith('pvlib/iotools'):
            own = ['C26']
        if len(own) > 2:
            own = []
    if not own:
        print('nobody', name, d)
    for p in own:
        out.setdefault(p, {})[name] = d
json.dump({p: out[p] for p in sorted(out)}, open(os.path.join(
    HERE, 'specs', 'data', 'defaults.json'), 'w'), indent=1)
print({p: (len(d), sum(map(len, d.values()))) for p, d in sorted(out.items())})
