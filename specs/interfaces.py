"""What is left out takes its documented value (every property)."""
from pvc.api import *
from pvc.data import table
import inspect
import numpy as np

DEFAULTS = table('defaults')


def find(name):
    """the function or class member of a dotted name, or None"""
    import importlib
    parts = name.split('.')
    for n in range(len(parts), 0, -1):
        try:
            x = importlib.import_module('.'.join(parts[:n]))
        except ImportError:
            continue
        for q in parts[n:]:
            x = inspect.getattr_static(x, q, None)
            if x is None:
                return None
        return getattr(x, '__func__', x)
    return None


def agrees(given, documented):
    """a value computed when the function is called (None, or something that
    is not a plain number, word or list) is left to the other contracts"""
    if given is None or documented is None:
        return True
    if isinstance(documented, list):
        if not isinstance(given, (list, tuple, np.ndarray)):
            return True
        return len(given) == len(documented) and all(
            agrees(a, b) for a, b in zip(given, documented))
    if isinstance(documented, str):
        return given == documented if isinstance(given, str) else True
    if isinstance(given, (bool, np.bool_, int, float, np.number)):
        return bool(eq(float(given), float(documented)))
    return True


def make(prop, first):
    def documented_defaults(seed):
        for name, want in DEFAULTS[prop].items():
            f = find(name)
            if f is None:
                yield f'{name} is there', False
                continue
            try:
                pars = inspect.signature(f).parameters
            except (TypeError, ValueError):
                continue
            extra = any(p.kind == p.VAR_KEYWORD for p in pars.values())
            for k, v in want.items():
                if k not in pars:
                    yield f'{name} takes {k}', extra
                elif pars[k].default is inspect.Parameter.empty:
                    yield f'{k} of {name} may be left out', False
                else:
                    yield f'{k} of {name} when left out', agrees(
                        pars[k].default, v)
    documented_defaults.__name__ += '_' + prop
    lemma(prop, first, bounded=True, args=dict(seed=P(0, 1)),
          kinds=('scalar',), samples=1)(documented_defaults)


for prop in DEFAULTS:
    make(prop, sorted(DEFAULTS[prop])[0])
