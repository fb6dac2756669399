"""Numeric fingerprints: cheap necessary test for algebraic equality."""
import numpy as np
from . import terms as t

N = 5
_cache = {}
_vars = {}
_rng_master = 987654321


def _rnd(key, lo, hi):
    import zlib
    r = np.random.RandomState(zlib.crc32(repr(key).encode()) ^ 12345)
    return r.uniform(lo, hi, N)


class Samples:
    """evaluate terms on a set of points (vectorised)"""

    def __init__(self, n, var):
        self.n, self.var, self.c = n, var, {}

    def val(self, x):
        global N, _cache, _varfn
        old = N, _cache, _varfn
        N, _cache, _varfn = self.n, self.c, self.var
        try:
            return val(x)
        finally:
            N, _cache, _varfn = old


_varfn = None


def val(x):
    r = _cache.get(x.id)
    if r is None:
        if len(_cache) > 400000:
            _cache.clear()
        # iterative post-order to avoid deep recursion
        stack = [x]
        while stack:
            y = stack[-1]
            if y.id in _cache:
                stack.pop()
                continue
            todo = [c for c in t.children(y) if c.id not in _cache]
            if todo:
                stack += todo
            else:
                with np.errstate(all='ignore'):
                    _cache[y.id] = _val(y)
                stack.pop()
        r = _cache[x.id]
    return r


def _g(x):
    return _cache[x.id]


def _val(x):
    op = x.op
    if op == 'c':
        return np.full(N, float(x.args[0]))
    if op == 'pi':
        return np.full(N, np.pi)
    if op in ('v', 'bv') and _varfn is not None:
        return _varfn(x)
    if op == 'v':
        n = x.args[0]
        if n.endswith('!i'):
            return np.round(_rnd(n, -7, 8))
        return _rnd(n, 0.15, 1.9)
    if op == 'bv':
        return _rnd(x.args[0], 0, 1) < 0.5
    if op == 'true':
        return np.ones(N, bool)
    if op == 'false':
        return np.zeros(N, bool)
    if op == 'not':
        return ~_g(x.args[0])
    if op == 'and':
        r = np.ones(N, bool)
        for a in x.args:
            r &= _g(a)
        return r
    if op == 'or':
        r = np.zeros(N, bool)
        for a in x.args:
            r |= _g(a)
        return r
    if op == 'lt0':
        return _g(x.args[0]) < (-1e-11 if _varfn is None else 0)
    if op == 'eq0':
        return np.abs(_g(x.args[0])) < 1e-11
    if op == '+':
        s = np.full(N, float(x.args[0]))
        for a, c in x.args[1]:
            s = s + _g(a) * float(c)
        return s
    if op == '*':
        p = np.ones(N)
        for b, e in x.args[0]:
            v = _g(b)
            p = p * (v ** int(e) if e.denominator == 1 else
                     np.abs(v) ** float(e))
        return p
    if op == 'ite':
        return np.where(_g(x.args[0]), _g(x.args[1]), _g(x.args[2]))
    if op == 'sin':
        return np.sin(_g(x.args[0]))
    if op == 'cos':
        return np.cos(_g(x.args[0]))
    if op == 'exp':
        return np.exp(np.clip(_g(x.args[0]), -300, 300))
    if op == 'log':
        return np.log(np.abs(_g(x.args[0])))
    if op == 'atan':
        return np.arctan(_g(x.args[0]))
    if op == 'atan2':
        return np.arctan2(_g(x.args[0]), _g(x.args[1]))
    if op == 'floor':
        return np.floor(_g(x.args[0]) + 1e-9)
    if op in ('asin', 'acos'):
        v = _g(x.args[0])
        s = np.where(np.abs(v) <= 1, np.arcsin(np.clip(v, -1, 1)),
                     np.tanh(v) * 3)
        return s if op == 'asin' else np.pi / 2 - s
    if op == 'uf' and x.args[0] == 'lambertw':
        from scipy.special import lambertw
        return lambertw(_g(x.args[1])).real
    if op == 'uf':
        s = _rnd(('uf', x.args[0]), -1, 1)
        for i, a in enumerate(x.args[1:]):
            if isinstance(a, t.T):
                v = np.nan_to_num(np.asarray(_g(a), float), nan=0.5,
                                  posinf=7.0, neginf=-7.0)
            else:
                v = _rnd(a, -1, 1)
            s = np.sin(s * 1.7 + (0.37 + 0.11 * i) * np.arctan(v) * 2.3)
        return 1.0 + 0.5 * s
    raise ValueError(op)


def key(x):
    """hashable up to a constant factor, or None"""
    v = val(x)
    if not np.all(np.isfinite(v)):
        return None
    m = np.max(np.abs(v))
    if m < 1e-9:
        return 'zero'
    i = int(np.argmax(np.abs(v) > 1e-6 * m))
    w = v / v[i]
    return tuple(np.round(w, 5) + 0.0)


def maybe_zero(x):
    v = val(x)
    if x.op == '+':
        s = np.full(N, abs(float(x.args[0])))
        for a, c in x.args[1]:
            s = s + np.abs(val(a) * float(c))
    else:
        s = np.ones(N)
    with np.errstate(all='ignore'):
        return bool(np.all(~(np.abs(v) > 1e-7 * s + 1e-9)))
