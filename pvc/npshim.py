"""Symbolic stand-in for numpy (the part pvlib's model code uses)."""
from fractions import Fraction as Fr
import contextlib
import functools
import hashlib
import numpy as _np
from . import terms as t
from . import ctx as _ctx
from . import xval as x
from .xval import (A, X, B, ew, ew2, ew1, xc, XOPS, TRUE, FALSE, Unsupported,
                   SymLen, N, tob)


def dtkind(dt):
    if dt is None:
        return 'f'
    if dt in (float, 'float', 'float64', 'f8', 'd'):
        return 'f'
    if dt in (int, 'int', 'int64', 'i8'):
        return 'i'
    if dt in (bool, 'bool'):
        return 'b'
    if dt is object or dt == 'object':
        return 'O'
    if getattr(dt, '__name__', '') in ('_float', 'float_'):
        return 'f'
    try:
        k = _np.dtype(dt).kind
        return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}[k]
    except Exception:
        raise Unsupported(f'dtype {dt}')


def _npx(r):
    if isinstance(r, X):
        return X(r.v, r.nan, r.pinf, r.ninf, True)
    return r


def _seq(a):
    if isinstance(a, (list, tuple)):
        return A.of(a)
    if isinstance(a, _np.ndarray):
        return A.of(a)
    if hasattr(a, '_as_A') and not getattr(a, '_wrap_prio', 0) and \
            not isinstance(a, A):
        return a._as_A()
    return a


def _ufunc(name, nin, op=None, logical=False):
    op = op or name

    def f(*args, out=None, where=True, dtype=None, casting=None, **k):
        if k:
            raise Unsupported(f'np.{name} keyword {list(k)}')
        if len(args) > nin:
            out = args[nin]
            args = args[:nin]
        if len(args) != nin:
            raise TypeError(f'{name}() takes {nin} arguments')
        args = tuple(_seq(a) for a in args)
        for a in args:
            if a is None:
                raise TypeError(f"ufunc '{name}' not supported for the input "
                                "types (None)")
            if isinstance(a, str):
                raise TypeError(f"ufunc '{name}' not supported for str")
        if nin == 1:
            if op == 'not':
                r = ew1('not', args[0])
            else:
                dt = 'i' if op in x.ARITH and x._isint(args[0]) else None
                r = ew(lambda e: XOPS[op](xc(e)), args, dt)
        else:
            r = ew2(op, *args)
        r = _npx(r)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            if where is not True:
                w = _seq(where)
                r = ew(lambda c, a, b: x.sel_elem(c, a, b), (w, r, out))
            ra = A.of(r)
            if not isinstance(out, A):
                raise Unsupported('ufunc out= of a non-array')
            if out.dt == 'i' and ra.dt == 'f':
                raise TypeError('Cannot cast ufunc output')
            out[...] = A(ra.d, ra.g, ra.dt)
            return out
        if where is not True:
            # unselected elements are uninitialised: any value
            c = _ctx.get()
            w = _seq(where)
            junk = X(c.fresh('uninit', generic=True), np=True)
            r = ew(lambda cc, a: x.sel_elem(cc, a, junk), (w, r))
        return r
    f.__name__ = name
    f.nin = nin
    return f


class _Arr:
    """np.ndarray for isinstance tests"""


class NP:
    pi = X(t.PI)
    e = x.x_exp(X(t.ONE))
    nan = x.X(t.ZERO, TRUE)
    NaN = nan
    inf = x.X(t.ZERO, pinf=TRUE)
    Inf = inf
    newaxis = None
    ndarray = A
    float64 = float
    float32 = float
    int64 = int
    bool_ = bool
    integer = _np.integer
    floating = _np.floating
    number = _np.number
    generic = _np.generic
    errstate = staticmethod(_np.errstate)
    dtype = staticmethod(_np.dtype)
    timedelta64 = _np.timedelta64
    datetime64 = _np.datetime64

    for _n, _o in dict(sin='sin', cos='cos', tan='tan', exp='exp', log='log',
                       sqrt='sqrt', arcsin='asin', arccos='acos',
                       arctan='atan', floor='floor', ceil='ceil',
                       trunc='trunc', rint='rint', sign='sign',
                       expm1='expm1', log1p='log1p', log10='log10',
                       log2='log2', sinh='sinh', cosh='cosh', tanh='tanh',
                       radians='radians', deg2rad='radians',
                       degrees='degrees', rad2deg='degrees', abs='abs',
                       absolute='abs', fabs='abs', negative='neg',
                       isnan='isnan', isinf='isinf', isfinite='isfinite',
                       logical_not='not', invert='not', asin='asin',
                       acos='acos', atan='atan').items():
        exec(f'{_n} = staticmethod(_ufunc({_n!r}, 1, {_o!r}))')
    for _n, _o in dict(add='add', subtract='sub', multiply='mul',
                       divide='div', true_divide='div', power='pow',
                       float_power='pow', mod='mod', remainder='mod',
                       floor_divide='floordiv', maximum='max', minimum='min',
                       fmax='fmax', fmin='fmin', arctan2='atan2',
                       atan2='atan2', hypot='hypot', less='lt',
                       less_equal='le', greater='gt', greater_equal='ge',
                       equal='eq', not_equal='ne', logical_and='and',
                       logical_or='or', logical_xor='xor',
                       bitwise_and='and', bitwise_or='or').items():
        exec(f'{_n} = staticmethod(_ufunc({_n!r}, 2, {_o!r}))')
    del _n, _o

    @staticmethod
    def square(a):
        return _npx(ew2('mul', _seq(a), _seq(a)))

    @staticmethod
    def cbrt(a):
        return ew(lambda e: x.x_mul(x.x_sign(xc(e)), x.x_pow(
            x.x_abs(xc(e)), X(t.C(Fr(1, 3))))), (_seq(a),))

    @staticmethod
    def reciprocal(a):
        return ew2('div', 1, a)

    # ---- construction
    @staticmethod
    def array(o, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(o, (list, tuple)) and any(
                isinstance(e, (list, tuple)) for e in o):
            o = list(o)
        a = A.of(o)
        a = A(a.d.copy(), a.g, a.dt, sel=a.sel)
        if dtype is not None:
            a = x.cast(a, dtype)
        while a.ndim < ndmin:
            a = A(a.d[None], (False,) + a.g, a.dt)
        return a

    @staticmethod
    def asarray(o, dtype=None, **k):
        if isinstance(o, x.A):
            a = o
        else:
            a = A.of(o)
        if dtype is not None and dtkind(dtype) != a.dt:
            a = x.cast(a, dtype)
        return a

    asanyarray = asarray
    ascontiguousarray = asarray

    @staticmethod
    def fromiter(it, dtype=float, count=-1):
        return A.of(list(it))

    @staticmethod
    def atleast_1d(*os):
        def f(o):
            a = A.of(o)
            if a.ndim == 0:
                return A(a.d.reshape(1), None, a.dt)
            if hasattr(o, '_wrap_prio') and not isinstance(o, A):
                return a
            return a
        return f(os[0]) if len(os) == 1 else [f(o) for o in os]

    @staticmethod
    def atleast_2d(*os):
        def f(o):
            a = A.of(o)
            if a.ndim == 0:
                return A(a.d.reshape(1, 1), None, a.dt)
            if a.ndim == 1:
                return A(a.d[None], (False,) + a.g, a.dt)
            return a
        return f(os[0]) if len(os) == 1 else [f(o) for o in os]

    @staticmethod
    def _fill(shape, v, dt=None):
        if isinstance(shape, (int, _np.integer, SymLen)):
            shape = (shape,)
        shape = tuple(shape)
        g = tuple(isinstance(s, SymLen) for s in shape)
        ln = tuple(1 if isinstance(s, SymLen) else int(s) for s in shape)
        d = _np.empty(ln, object)
        d.fill(v)
        return A(d, g, dt)

    @staticmethod
    def zeros(shape, dtype=None, **k):
        if isinstance(dtype, _np.dtype) and dtype.names:
            return _np.zeros(shape, dtype)
        kd = dtkind(dtype)
        return NP._fill(shape, B(FALSE) if kd == 'b' else x.X0, kd)

    @staticmethod
    def ones(shape, dtype=None, **k):
        kd = dtkind(dtype)
        return NP._fill(shape, B(TRUE) if kd == 'b' else x.X1, kd)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        if isinstance(v, A) and v.ndim == 0:
            v = v.d[()]
        if hasattr(v, '_as_A') and not isinstance(v, A):
            v = A.of(v)
        if isinstance(v, A):
            return NP.broadcast_to(v, shape).copy()
        if isinstance(v, (bool, _np.bool_)):
            v = B(TRUE if v else FALSE)
        kd = dtkind(dtype) if dtype is not None else (
            'b' if isinstance(v, B) else
            ('i' if isinstance(v, int) else 'f'))
        if not isinstance(v, B):
            v = xc(v)
            v = X(v.v, v.nan, v.pinf, v.ninf, True)
        return NP._fill(shape, v, kd)

    @staticmethod
    def empty(shape, dtype=None, **k):
        c = _ctx.get()
        r = NP._fill(shape, None, dtkind(dtype))
        for i in _np.ndindex(*r.d.shape):
            r.d[i] = X(c.fresh('uninit', generic=any(r.g)), np=True)
        return r

    @staticmethod
    def _like(o, v, dtype, shape=None):
        a = A.of(o)
        kd = dtkind(dtype) if dtype is not None else a.dt
        d = _np.empty(a.d.shape, object)
        if v is None:
            c = _ctx.get()
            for i in _np.ndindex(*d.shape):
                d[i] = X(c.fresh('uninit', generic=True), np=True)
        else:
            va = A.of(v)
            src = va
            if kd == 'i' and va.dt != 'i':
                src = x.cast(va, int)
            if kd == 'b':
                src = x.cast(va, bool)
            if kd == 'f' and va.dt == 'b':
                src = x.cast(va, float)
            if src.ndim:
                d[...] = _np.broadcast_to(src.d, d.shape)
            else:
                d.fill(src.d[()])
        r = A(d, a.g, kd, sel=a.sel)
        if getattr(o, '_wrap_prio', 0) and not isinstance(o, A):
            # numpy calls back into pandas: a Series / DataFrame results
            from . import pdshim
            if isinstance(o, pdshim.S):
                return r
        return r

    @staticmethod
    def zeros_like(o, dtype=None, **k):
        return NP._like(o, 0, dtype)

    @staticmethod
    def ones_like(o, dtype=None, **k):
        return NP._like(o, 1, dtype)

    @staticmethod
    def full_like(o, v, dtype=None, **k):
        return NP._like(o, v, dtype)

    @staticmethod
    def empty_like(o, dtype=None, **k):
        return NP._like(o, None, dtype)

    @staticmethod
    def arange(*a, **k):
        a = [y.d[()] if isinstance(y, A) and y.ndim == 0 else y for y in a]
        if any(isinstance(y, (X, float)) for y in a):
            v = [xc(y) for y in a]
            if not all(y.isconst() for y in v):
                raise Unsupported('arange with symbolic bounds')
            v = [y.v.args[0] for y in v]
            st, sp, inc = (Fr(0), v[0], Fr(1)) if len(v) == 1 else (
                (v[0], v[1], Fr(1)) if len(v) == 2 else v)
            out = []
            c = st
            while (c < sp) if inc > 0 else (c > sp):
                out.append(X(t.C(c), np=True))
                c += inc
            allint = all(isinstance(y, (int, _np.integer)) for y in a)
            r = A.of(out) if out else A(_np.empty((0,), object))
            r.dt = 'i' if allint else 'f'
            return r
        return A.of(_np.arange(*a, **k))

    @staticmethod
    def linspace(a, b, num=50, **k):
        num = int(num)
        ep = k.pop('endpoint', True)
        if set(k) - {'dtype'} or (k.get('dtype') not in (None, float)):
            raise Unsupported('linspace options')
        m = num - 1 if ep else num
        return A.of([a + (b - a) * Fr2(i, max(m, 1)) for i in range(num)])

    @staticmethod
    def meshgrid(*v, indexing='xy', **k):
        v = [A.of(e) for e in v]
        if k or any(any(e.g) or e.d.ndim != 1 for e in v):
            raise Unsupported('meshgrid of generic arrays')
        return [A(d.astype(object), (False,) * d.ndim, e.dt) for d, e in zip(
            _np.meshgrid(*[e.d for e in v], indexing=indexing), v)]

    @staticmethod
    def broadcast_arrays(*a):
        aa = [A.of(q) for q in a]
        ds, g, shp, sel = x.bcast(aa)
        return [A(d.copy(), g, q.dt) for d, q in zip(ds, aa)]

    @staticmethod
    def broadcast_to(a, shape):
        a = A.of(a)
        if not isinstance(shape, tuple):
            shape = (shape,)
        g = tuple(isinstance(s, SymLen) for s in shape)
        ln = tuple(1 if q else int(s) for s, q in zip(shape, g))
        ag = (False,) * (len(g) - len(a.g)) + a.g
        if any(p and not q for p, q in zip(ag, g)):
            raise ValueError('cannot broadcast')
        return A(_np.broadcast_to(a.d, ln).copy(), g, a.dt)

    @staticmethod
    def broadcast_shapes(*s):
        raise Unsupported('broadcast_shapes')

    @staticmethod
    def stack(ps, axis=0, **k):
        return x.stack_([A.of(p) for p in ps], axis)

    @staticmethod
    def vstack(ps, **k):
        ps = [A.of(p) for p in ps]
        if all(p.ndim == 1 for p in ps):
            return x.stack_(ps, 0)
        ps = [p if p.ndim > 1 else A(p.d[None], (False,) + p.g) for p in ps]
        return x.concat_(ps, 0)

    @staticmethod
    def column_stack(ps):
        return x.stack_([A.of(p) for p in ps], 1)

    @staticmethod
    def hstack(ps):
        return x.concat_([A.of(p) for p in ps], 0)

    @staticmethod
    def concatenate(ps, axis=0, **k):
        return x.concat_(list(ps), axis)

    @staticmethod
    def append(a, b, axis=None):
        return x.concat_([A.of(a).ravel(), A(A.of(b).d.reshape(-1),
                                             None if A.of(b).ndim == 0
                                             else A.of(b).g)], 0)

    @staticmethod
    def expand_dims(a, axis):
        a = A.of(a)
        g = list(a.g)
        g.insert(axis % (a.ndim + 1), False)
        return A(_np.expand_dims(a.d, axis), g, a.dt)

    @staticmethod
    def moveaxis(a, s, d):
        a = A.of(a)
        order = [i for i in range(a.ndim) if i != s % a.ndim]
        order.insert(d % a.ndim, s % a.ndim)
        return a.transpose(*order)

    @staticmethod
    def transpose(a, axes=None):
        return A.of(a).transpose(*(axes or ()))

    @staticmethod
    def squeeze(a, axis=None):
        return A.of(a).squeeze(axis)

    @staticmethod
    def ravel(a):
        return A.of(a).ravel()

    @staticmethod
    def reshape(a, s, **k):
        return A.of(a).reshape(s)

    @staticmethod
    def copy(a, **k):
        return A.of(a).copy()

    @staticmethod
    def tile(a, n):
        a = A.of(a)
        if any(a.g):
            raise Unsupported('tile')
        return A(_np.tile(a.d, n), None, a.dt)

    @staticmethod
    def roll(a, n, axis=None):
        a = A.of(a)
        if a.g == (True,) and a.sel is None:
            from . import rows
            rows.need('roll')
            return A.generic(rows.rolled(a.d[0], n), a.dt)
        if any(a.g):
            raise Unsupported('roll')
        return A(_np.roll(a.d, n, axis), None, a.dt)

    @staticmethod
    def flip(a, axis=None):
        a = A.of(a)
        if any(a.g):
            raise Unsupported('flip')
        return A(_np.flip(a.d, axis), a.g, a.dt)

    @staticmethod
    def diff(a, n=1, axis=-1, **k):
        a = A.of(a)
        axis = axis % a.ndim
        if a.g == (True,) and n == 1 and set(k) <= {'prepend'}:
            from . import rows
            rows.need('diff')
            r = a[1:] - a[:-1]
            if k:
                p = A.of(k['prepend'])
                if p.d.size != 1:
                    raise Unsupported('diff')
                q = A(_np.array([None], object))
                q.d[0] = x.x_sub(x.xc(rows.fixed(a.d[0], 0)),
                                 x.xc(p.d.reshape(-1)[0]))
                r = x.concat_([q, r])
            return r
        if a.g[axis] or k:
            raise Unsupported('diff')
        ix = [slice(None)] * a.ndim
        jx = list(ix)
        ix[axis] = slice(1, None)
        jx[axis] = slice(None, -1)
        return a[tuple(ix)] - a[tuple(jx)]

    @staticmethod
    def cumsum(a, axis=None, **k):
        return x.np_cumsum(A.of(a), axis)

    @staticmethod
    def sort(a, axis=-1, **k):
        return x.np_sort(A.of(a), axis)

    # ---- selection
    @staticmethod
    def where(c, a=None, b=None):
        if a is None:
            raise Unsupported('np.where(mask)')
        c, a, b = (A.of(v) for v in (c, a, b))
        dt = 'i' if a.dt == 'i' and b.dt == 'i' else None
        r = ew(lambda p, q, s: x.sel_elem(p, q, s), (c, a, b), dt,
               keep0=True)
        return A.of(r)

    @staticmethod
    def select(conds, choices, default=0):
        r = A.of(default)
        for c, v in reversed(list(zip(conds, choices))):
            r = NP.where(c, v, r)
        return r

    @staticmethod
    def piecewise(z, condlist, funclist, *args, **kw):
        a = A.of(z)
        if isinstance(condlist, (A, B)):
            condlist = [condlist]
        condlist = [c._as_A() if hasattr(c, '_as_A') and not isinstance(c, A)
                    else c for c in condlist]
        funcs = list(funclist)
        r = NP.zeros_like(a, dtype=float)
        if len(funcs) == len(condlist) + 1:
            default = funcs.pop()
            r = A.of(default(a, *args, **kw) if callable(default) else
                     NP.full_like(a, default, dtype=float))
        for c, f in zip(condlist, funcs):
            v = f(a, *args, **kw) if callable(f) else f
            r = NP.where(c, v, r)
        return r

    @staticmethod
    def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
        if a_min is None:
            a_min = min
        if a_max is None:
            a_max = max
        a = _seq(a)
        from . import pdshim
        if isinstance(a, (pdshim.S, pdshim.DF)):
            r = a.clip(a_min, a_max)
        else:
            r = x.clip(a, _seq(a_min), _seq(a_max))
        if out is not None:
            out[...] = r
            return out
        return r

    @staticmethod
    def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
        def f(e):
            e = xc(e)
            r = x.x_ite(e.nan, xc(nan), e)
            if e.pinf is not FALSE:
                r = x.x_ite(e.pinf, xc(1.7976931348623157e308 if posinf is
                                       None else posinf), r)
            if e.ninf is not FALSE:
                r = x.x_ite(e.ninf, xc(-1.7976931348623157e308 if neginf is
                                       None else neginf), r)
            return r
        return _npx(ew(f, (_seq(a),)))

    @staticmethod
    def isclose(a, b, rtol=None, atol=None, equal_nan=False):
        rt = X(t.C(Fr(1, 10**5))) if rtol is None else rtol
        at = X(t.C(Fr(1, 10**8))) if atol is None else atol

        def f(p, q):
            p, q = xc(p), xc(q)
            lim = x.x_add(xc(at), x.x_mul(xc(rt), x.x_abs(q)))
            close = x.x_le(x.x_abs(x.x_sub(p, q)), lim)
            r = t.band(x.fin_(p), x.fin_(q), close)
            r = t.bor(r, x.x_eq(p, q)) if not (p.isfin() and q.isfin()) \
                else r
            if equal_nan:
                r = t.bor(r, t.band(p.nan, q.nan))
            return B(r)
        return ew(f, (_seq(a), _seq(b)))

    @staticmethod
    def allclose(a, b, **k):
        r = NP.isclose(a, b, **k)
        return r.all() if not isinstance(r, B) else r

    @staticmethod
    def array_equal(a, b, **k):
        return NP.equal(a, b).all()

    # ---- reductions
    @staticmethod
    def _r(op, a, axis=None, **k):
        if hasattr(a, '_wrap_prio') and not isinstance(a, A):
            return getattr(a, op)(**({} if axis is None else
                                     dict(axis=axis)))
        if isinstance(a, (X, B)) or isinstance(a, (int, float)):
            if op in ('any', 'all'):
                return B(tob(a))
            return _npx(xc(a))
        k = {q: v for q, v in k.items() if q in ('keepdims', 'skipna')}
        return x.reduce_(op, A.of(a), axis, **k)

    @staticmethod
    def any(a, axis=None, **k): return NP._r('any', a, axis, **k)
    @staticmethod
    def all(a, axis=None, **k): return NP._r('all', a, axis, **k)
    @staticmethod
    def sum(a, axis=None, **k): return NP._r('sum', a, axis, **k)
    @staticmethod
    def mean(a, axis=None, **k): return NP._r('mean', a, axis, **k)
    @staticmethod
    def max(a, axis=None, **k): return NP._r('max', a, axis, **k)
    @staticmethod
    def min(a, axis=None, **k): return NP._r('min', a, axis, **k)
    amax = max
    amin = min

    @staticmethod
    def prod(a, axis=None, **k): return NP._r('prod', a, axis, **k)

    @staticmethod
    def nanmax(a, axis=None, **k):
        return x.reduce_('max', A.of(a), axis, skipna=True)

    @staticmethod
    def nanmin(a, axis=None, **k):
        return x.reduce_('min', A.of(a), axis, skipna=True)

    @staticmethod
    def nansum(a, axis=None, **k):
        return x.reduce_('sum', A.of(a), axis, skipna=True)

    @staticmethod
    def nanmean(a, axis=None, **k):
        return x.reduce_('mean', A.of(a), axis, skipna=True)

    @staticmethod
    def dot(a, b):
        return x.matmul(a, b)

    matmul = dot

    @staticmethod
    def count_nonzero(a, **k):
        return x.cast(x.cast(A.of(a), bool), float).sum()

    # ---- tables, polynomials
    @staticmethod
    def digitize(v, bins, right=False):
        bs = [xc(e) for e in A.of(bins)]
        inc = True
        if len(bs) > 1:
            c = t.lt(bs[1].v, bs[0].v)
            inc = c is not TRUE

        def f(e):
            e = xc(e)
            s = X(t.ZERO)
            if bs and all(b.v.op == 'c' for b in bs):
                vs = [b.v.args[0] for b in bs]
                if vs == sorted(set(vs)) or vs == sorted(set(vs))[::-1]:
                    out = t.C(len(bs))
                    for i in range(len(bs) - 1, -1, -1):
                        b = bs[i]
                        if inc:
                            c = x.x_lt(b, e) if right else x.x_le(b, e)
                        else:
                            c = x.x_le(e, b) if right else x.x_lt(e, b)
                        out = t.ite(t.bor(c, e.nan), out, t.C(i))
                    return X(out, np=True)
            for b in bs:
                if inc:
                    c = x.x_lt(b, e) if right else x.x_le(b, e)
                else:
                    c = x.x_le(e, b) if right else x.x_lt(e, b)
                # numpy sorts NaN after every bin
                c = t.bor(c, e.nan)
                s = x.x_add(s, X(t.ite(c, t.ONE, t.ZERO)))
            return X(s.v, np=True)
        r = ew(f, (_seq(v),), 'i')
        return SymIdx.wrap(r, len(bs))

    @staticmethod
    def searchsorted(bins, v, side='left', **k):
        return NP.digitize(v, bins, right=(side == 'left'))

    @staticmethod
    def interp(v, xp, fp, left=None, right=None, period=None):
        if period is not None:
            raise Unsupported('interp period')
        xs = [xc(e) for e in A.of(xp)]
        fs = [xc(e) for e in A.of(fp)]
        if len(xs) != len(fs):
            raise ValueError('fp and xp are not of the same length.')
        if len(xs) > 80:
            raise Unsupported('interp on a long table')

        def f(e):
            e = xc(e)
            hi = xc(right) if right is not None else fs[-1]
            lo = xc(left) if left is not None else fs[0]
            r = x.x_ite(x.x_le(e, xs[-1]), fs[-1], hi)
            for i in range(len(xs) - 1, 0, -1):
                x0, x1, f0, f1 = xs[i - 1], xs[i], fs[i - 1], fs[i]
                seg = x.x_add(f0, x.x_mul(x.x_div(x.x_sub(f1, f0),
                                                  x.x_sub(x1, x0)),
                                          x.x_sub(e, x0)))
                r = x.x_ite(x.x_lt(e, x1), seg, r)
            r = x.x_ite(x.x_lt(e, xs[0]), lo, r)
            return x.mkx(r.v, t.bor(r.nan, e.nan), r.pinf, r.ninf, True)
        v = _seq(v)
        if hasattr(v, '_as_A') and not isinstance(v, A):
            v = v._as_A()
        return ew(f, (v,))

    @staticmethod
    def polyval(p, v):
        if hasattr(p, '_as_A') and not isinstance(p, A):
            p = p._as_A()
        if isinstance(p, A):
            cs = [p[i] for i in range(p.d.shape[0])]
        else:
            cs = list(p)
        r = NP.zeros_like(v) if isinstance(v, (list, tuple)) else 0
        v = _seq(v)
        for c in cs:
            r = r * v + c
        return r if not isinstance(r, X) else _npx(r)

    @staticmethod
    def trapezoid(y, x_=None, dx=1.0, axis=-1, **k):
        from . import spshim
        return spshim.trapezoid(y, k.get('x', x_), dx, axis)
    trapz = trapezoid

    @staticmethod
    def vectorize(f, *a, **k):
        def g(*args):
            return A.of(ew(lambda *e: xc(f(*[X(q.v, q.nan, q.pinf, q.ninf,
                                                True) for q in e])), args))
        return g

    # ---- queries
    @staticmethod
    def isscalar(v):
        return isinstance(v, (X, B, int, float, str, _np.generic, complex,
                              bool, bytes))

    @staticmethod
    def ndim(v):
        if isinstance(v, (list, tuple)):
            return A.of(v).ndim
        return getattr(v, 'ndim', 0)

    @staticmethod
    def shape(v):
        if isinstance(v, (list, tuple)):
            return A.of(v).shape
        return getattr(v, 'shape', ())

    @staticmethod
    def size(v, axis=None):
        if axis is not None:
            return NP.shape(v)[axis]
        if isinstance(v, (list, tuple)):
            return A.of(v).size
        return getattr(v, 'size', 1)

    @staticmethod
    def iterable(v):
        return hasattr(v, '__iter__')

    @staticmethod
    def round(a, decimals=0, **k):
        return _npx(x.np_round(_seq(a), decimals))
    around = round

    @staticmethod
    def iscomplex(a):
        return ew(lambda e: B(FALSE), (_seq(a),))

    iscomplexobj = staticmethod(lambda a: False)

    @staticmethod
    def real(a):
        return a

    @staticmethod
    def finfo(dt):
        class F:
            eps = X(t.C(Fr(1, 2**52)), np=True)
            max = X(t.C(Fr(2)**1024), np=True)
            tiny = X(t.C(Fr(2)**-1022), np=True)
        return F

    @staticmethod
    def spacing(a):
        raise Unsupported('np.spacing')

    class polynomial:
        class Polynomial:
            def __init__(self, coef):
                self.coef = list(A.of(coef)) if not isinstance(coef, list) \
                    else coef

            def __mul__(self, o):
                return NP.polynomial.Polynomial([c * o for c in self.coef])
            __rmul__ = __mul__

            def __truediv__(self, o):
                return NP.polynomial.Polynomial([c / o for c in self.coef])

            def __call__(self, v):
                r = 0
                for c in reversed(self.coef):
                    r = r * v + c
                return r

    class linalg:
        @staticmethod
        def norm(a, axis=None, **k):
            a = A.of(a)
            return NP.sqrt((a * a).sum(axis=axis))

        @staticmethod
        def lstsq(*a, **k):
            raise Unsupported('lstsq')

    def __getattr__(self, n):
        raise Unsupported(f'np.{n}')


def Fr2(a, b):
    return X(t.C(Fr(a, b)))


class SymIdx(A):
    """integer array from digitize/searchsorted usable as a table index"""
    @staticmethod
    def wrap(r, n):
        if isinstance(r, A):
            r.hi = n
            return r
        return r


def table_lookup(tab, idx):
    """tab[idx] for a symbolic integer index (negative indices wrap)"""
    n = tab.d.shape[0]
    rest = tab.d.shape[1:]
    if rest:
        raise Unsupported('table rows')

    def f(e):
        e = xc(e)
        r = xc(tab.d[n - 1])
        if 0 < t._consttree(e.v) <= 128:
            es = [xc(v) for v in tab.d]
            if all(v.v.op == 'c' and v.nan is v.pinf is v.ninf is t.FALSE
                   for v in es) and all(
                    -n <= k < n for k in t.treeleaves(e.v)):
                return X(t.treemap(e.v, lambda k: es[int(k)].v), np=True)
        c = _ctx.get()
        if c is not None:
            c.obls.append(('index-in-bounds',
                           t.band(t.le(t.C(-n), e.v), t.lt(e.v, t.C(n)))))
        for i in range(n - 2, -1, -1):
            r = x.x_ite(t.bor(t.eq(e.v, t.C(i)), t.eq(e.v, t.C(i - n))),
                        xc(tab.d[i]), r)
        return X(r.v, r.nan, r.pinf, r.ninf, True)
    return ew(f, (idx,), keep0=isinstance(idx, A) and idx.ndim > 0)


np = NP()


def is_int(v):
    """syntactically integer-valued term"""
    op = v.op
    if op == 'c':
        return v.args[0].denominator == 1
    if op == 'v':
        return v.args[0].endswith('!i')
    if op == 'floor':
        return True
    if op == '+':
        return v.args[0].denominator == 1 and all(
            c.denominator == 1 and is_int(a) for a, c in v.args[1])
    if op == '*':
        return all(e.denominator == 1 and e > 0 and is_int(b)
                   for b, e in v.args[0])
    if op == 'ite':
        return is_int(v.args[1]) and is_int(v.args[2])
    return False


def _int0(q):
    """0-d or scalar symbolic integers become 0-d integer arrays"""
    if isinstance(q, X) and not q.isconst() and is_int(q.v):
        return A.of(q).astype_i() if False else A(A.of(q).d, (), 'i')
    if isinstance(q, A) and q.ndim == 0 and q.dt != 'b' and \
            isinstance(q.d[()], X) and is_int(q.d[()].v):
        return A(q.d, q.g, 'i')
    return q


def _install_lookup():
    old = A.__getitem__

    def getitem(self, k):
        if isinstance(k, tuple):
            k = tuple(_int0(q._as_A() if hasattr(q, '_as_A') and
                            not isinstance(q, A) else q) for q in k)
        elif isinstance(k, (A, X)):
            k = _int0(k)
        if isinstance(k, A) and k.dt == 'i' and (
                any(k.g) or any(not xc(e).isconst()
                                for e in k.d.reshape(-1))):
            if self.ndim == 1 and not any(self.g):
                return table_lookup(self, k)
        if isinstance(k, tuple) and len(k) == 2 and self.ndim == 2 and \
                not any(self.g) and isinstance(k[0], A) and k[0].dt == 'i' \
                and isinstance(k[1], int):
            return table_lookup(A(self.d[:, k[1]]), k[0])
        if isinstance(k, tuple) and k and all(
                isinstance(q, A) and q.dt == 'i' for q in k) and \
                len(k) == self.ndim and not any(self.g):
            return multi_lookup(self, k)
        if not any(self.g):
            ks = k if isinstance(k, tuple) else (k,)
            if any(isinstance(q, A) and q.dt == 'i' and (
                    any(q.g) or any(not xc(e).isconst()
                                    for e in q.d.reshape(-1))) for q in ks):
                return block_lookup(self, ks)
        return old(self, k)
    A.__getitem__ = getitem


def block_lookup(tab, ks):
    """tab[i, 2], tab[i], tab[:, i] ... with symbolic integer arrays i"""
    if any(q is Ellipsis for q in ks):
        n = [q is Ellipsis for q in ks].index(True)
        ks = ks[:n] + (slice(None),)*(tab.ndim - len(ks) + 1) + ks[n + 1:]
    ks = ks + (slice(None),)*(tab.ndim - len(ks))
    d = tab.d
    adv, sl, pos, sym = [], [], [], []
    for ax, q in enumerate(ks):
        if isinstance(q, slice):
            d = d[(slice(None),)*ax + (q,)]
            sl.append(ax)
        elif isinstance(q, (int, _np.integer)):
            adv.append(ax)
        elif isinstance(q, A) and q.dt == 'i':
            adv.append(ax)
            sym.append(ax)
        else:
            raise Unsupported('index mixed with symbolic integers')
    for ax in adv:
        if ax not in sym:
            d = _np.take(d, [int(ks[ax])], axis=ax)
    order = sym + [ax for ax in adv if ax not in sym] + sl
    d = d.transpose(order)
    rest = d.shape[len(adv):]
    d = d.reshape(d.shape[:len(sym)] + rest)
    keys = [ks[ax] for ax in sym]

    def one(sub):
        sub = A(sub)
        return table_lookup(sub, keys[0]) if len(keys) == 1 else \
            multi_lookup(sub, keys)
    parts = {i: A.of(one(d[(slice(None),)*len(sym) + i]))
             for i in _np.ndindex(*rest)}
    first = next(iter(parts.values()))
    lead = first.d.ndim
    out = _np.empty(first.d.shape + rest, object)
    for i, v in parts.items():
        for j in _np.ndindex(*v.d.shape):
            out[j + i] = v.d[j]
    g = list(first.g) + [False]*len(rest)
    before = sum(ax < adv[0] for ax in sl) \
        if adv == list(range(adv[0], adv[-1] + 1)) else 0
    perm = list(range(lead, lead + before)) + list(range(lead)) + \
        list(range(lead + before, out.ndim))
    return A(out.transpose(perm), tuple(g[p] for p in perm), tab.dt)


def big_table(tab):
    """name of a table of constants, an opaque function of its indices"""
    es = [xc(e) for e in tab.d.reshape(-1)]
    if not all(e.isconst() and e.nan is e.pinf is e.ninf is t.FALSE
               for e in es):
        return None
    v = _np.array([float(e) for e in es]).reshape(tab.d.shape)
    n = 'table' + hashlib.sha1(repr(v.shape).encode() + v.tobytes()
                               ).hexdigest()[:12]
    if n not in t.NP_UF:
        def look(*i):
            i = _np.broadcast_arrays(*[_np.asarray(q).astype(float)
                                       for q in i])
            q = tuple(_np.clip(_np.nan_to_num(a), 0, m - 1).astype(int)
                      for a, m in zip(i, v.shape))
            return v[q]
        t.NP_UF[n] = look
        t.MP_UF[n] = lambda *i: float(look(*[float(q) for q in i]))
    return n


def multi_lookup(tab, ks):
    if all(not any(k.g) and all(xc(e).isconst() for e in k.d.reshape(-1))
           for k in ks):
        ks = [_np.array([int(e) for e in k.d.reshape(-1)]
                        ).reshape(k.d.shape) for k in ks]
        return A(tab.d[tuple(ks)], None, tab.dt)

    big = big_table(tab) if tab.d.size > 256 else None

    def f(*es):
        if big is not None:
            c = _ctx.get()
            ix = []
            for e, n in zip(es, tab.d.shape):
                e = xc(e)
                c.obls.append(('index-in-bounds', t.band(
                    t.le(t.C(-n), e.v), t.lt(e.v, t.C(n)))))
                ix.append(t.ite(t.lt(e.v, t.ZERO), t.add(e.v, t.C(n)), e.v))
            return X(t.uf(big, *ix), np=True)

        def rec(d, es):
            if not es:
                return xc(d)
            e = xc(es[0])
            n = d.shape[0]
            r = rec(d[n - 1], es[1:])
            for i in range(n - 2, -1, -1):
                r = x.x_ite(t.bor(t.eq(e.v, t.C(i)), t.eq(e.v, t.C(i - n))),
                            rec(d[i], es[1:]), r)
            return r
        c = _ctx.get()
        if c is not None:
            for e, n in zip(es, tab.d.shape):
                e = xc(e)
                c.obls.append(('index-in-bounds', t.band(
                    t.le(t.C(-n), e.v), t.lt(e.v, t.C(n)))))
        r = rec(tab.d, es)
        return X(r.v, r.nan, r.pinf, r.ninf, True)
    return ew(f, ks)


_install_lookup()
