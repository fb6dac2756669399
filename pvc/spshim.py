"""Symbolic stand-ins for the scipy functions pvlib's models call."""
from fractions import Fraction as Fr
import types
import mpmath
import numpy as _np
import scipy.constants as _const
import scipy.special as _special
from . import terms as t
from . import ctx as _ctx
from . import xval as x
from .xval import A, X, B, ew, ew2, xc, TRUE, FALSE, Unsupported


def lambertw(z, k=0, tol=1e-8):
    if k != 0:
        raise Unsupported('lambertw branch')
    # principal branch; real part.  W is increasing, W(z) e^W(z) = z
    def f(e):
        e = xc(e)
        v = t.uf('lambertw', e.v)
        nan = t.bor(e.nan, e.ninf)
        return x.mkx(v, nan, e.pinf, FALSE, True)
    return ew(f, (z,))


t.MP_UF['lambertw'] = lambda z: mpmath.re(mpmath.lambertw(z))
t.NP_UF['lambertw'] = lambda z: _special.lambertw(z).real
def _lw_axioms(f):
    z = f.args[1]
    return [t.iff(t.gt(z, t.ZERO), t.gt(f, t.ZERO)),
            t.iff(t.eq0(z), t.eq0(f)),
            t.bor(t.lt(z, t.ZERO), t.eq(t.mul(f, t.exp(f)), z))]


def _install():
    from . import prove
    prove.UF_AXIOMS['lambertw'] = _lw_axioms


t.MP_UF['erf'] = mpmath.erf
t.NP_UF['erf'] = _special.erf
t.MP_UF['erfinv'] = mpmath.erfinv
t.NP_UF['erfinv'] = _special.erfinv
t.MP_UF['expi'] = mpmath.ei
t.NP_UF['expi'] = _special.expi
t.MP_UF['exp1'] = mpmath.e1
t.NP_UF['exp1'] = _special.exp1


def erf(z):
    return ew(lambda e: x.x_uf('erf')(xc(e)), (z,))


def erfinv(z):
    return ew(lambda e: x.x_uf('erfinv')(xc(e)), (z,))


def expi(z):
    return ew(lambda e: x.x_uf('expi')(xc(e)), (z,))


def exp1(z):
    return ew(lambda e: x.x_uf('exp1')(xc(e)), (z,))


def trapezoid(y, x_=None, dx=1.0, axis=-1, **k):
    if 'x' in k:
        x_ = k['x']
    y = A.of(y) if not isinstance(y, A) else y
    axis = axis % y.ndim
    if y.g[axis]:
        raise Unsupported('trapezoid over a generic axis')
    ym = y if axis == y.ndim - 1 else y.transpose(
        *[i for i in range(y.ndim) if i != axis], axis)
    d = 1
    if x_ is not None:
        xa = A.of(x_) if not hasattr(x_, '_as_A') or isinstance(x_, A) \
            else x_._as_A()
        d = xa[1:] - xa[:-1]
    else:
        d = dx
    sl = (Ellipsis, slice(1, None))
    sr = (Ellipsis, slice(None, -1))
    return (d * (ym[sl] + ym[sr]) / X(t.C(2))).sum(axis=-1)


_TCK = {}


def splev(v, tck, der=0, ext=0):
    """spline evaluation: uninterpreted per (knots, coefficients, degree)"""
    import scipy.interpolate as si
    if der != 0 or ext != 0:
        raise Unsupported('splev options')
    kn, cf, k = tck
    kn = [xc(e) for e in A.of(kn).d.reshape(-1)]
    cf = [xc(e) for e in A.of(cf).d.reshape(-1)]
    if not all(e.isconst() for e in kn + cf):
        raise Unsupported('splev with symbolic coefficients')
    kn = tuple(e.v.args[0] for e in kn)
    cf = tuple(e.v.args[0] for e in cf)
    key = (kn, cf, int(k))
    n = 'splev!%d' % _TCK.setdefault(key, len(_TCK))
    f = ([float(e) for e in kn], [float(e) for e in cf], int(k))
    t.NP_UF[n] = lambda z: si.splev(z, f)
    t.MP_UF[n] = lambda z: mpmath.mpf(float(si.splev(float(z), f)))
    return ew(lambda e: x.x_uf(n)(xc(e)), (v if isinstance(v, A) else
                                           A.of(v),), keep0=True)


def make_interp_spline(xs, ys, k=3, **kw):
    """degree 1 only: piecewise linear through the points, extrapolating
    with the end segments"""
    if k != 1 or kw:
        raise Unsupported('make_interp_spline of degree %s' % k)
    xs = [xc(e) for e in A.of(xs).d.reshape(-1)]
    ys = [xc(e) for e in A.of(ys).d.reshape(-1)]

    def f(e):
        e = xc(e)
        r = None
        for i in range(len(xs) - 1, 0, -1):
            s = x.x_add(ys[i - 1], x.x_mul(x.x_div(
                x.x_sub(ys[i], ys[i - 1]), x.x_sub(xs[i], xs[i - 1])),
                x.x_sub(e, xs[i - 1])))
            r = s if r is None else x.x_ite(x.x_lt(e, xs[i]), s, r)
        return x.mkx(r.v, t.bor(r.nan, e.nan), r.pinf, r.ninf, True)
    return lambda v: ew(f, (A.of(v),), keep0=True)


# ---- root finders: contracts assumed on scipy ------------------------------
# newton / brentq / find_root return a point where the function is zero; the
# obligation on the caller is that fprime is the derivative of func.
class Result:
    def __init__(self, **k):
        self.__dict__.update(k)


def _gen(vs):
    return any(isinstance(v, (A,)) and any(v.g) or hasattr(v, '_as_A') and
               not isinstance(v, A) for v in vs)


def _root(func, args, how, x0=None, fprime=None, box=None, scalar=False):
    c = _ctx.get()
    g = _gen(args) or x0 is not None and _gen([x0]) or \
        box is not None and _gen(box)
    roots = c.__dict__.setdefault('roots', {})

    def mk(term):
        e = X(term, np=True)
        return A.generic(e) if g else e

    ph = t.var('root?' + ('@N' if g else ''))
    r = A.of(func(mk(ph), *args))
    if r.d.size != 1:
        raise Unsupported('root of a vector function')
    e = xc(r.d.reshape(-1)[0])
    key = (how == 'min', e.v.id)
    if key in roots:
        return roots[key]
    rt = c.fresh('root', g)
    v = mk(rt)
    e = xc(A.of(func(v, *args)).d.reshape(-1)[0])
    roots[key] = (v, e)
    if how == 'min':
        return v, e
    c.axiom(t.band(t.eq0(e.v), t.bnot(e.nan), t.bnot(e.pinf),
                   t.bnot(e.ninf)))
    if fprime is not None:
        d = xc(A.of(fprime(v, *args)).d.reshape(-1)[0])
        c.obls.append(('newton: fprime is the derivative of func',
                       t.eq(t.diff(e.v, rt), d.v)))
    if box is not None:
        lo, hi = (xc(A.of(b).d.reshape(-1)[0]) for b in box)
        c.axiom(t.bor(hi.pinf, lo.nan, hi.nan,
                      t.band(t.le(lo.v, rt), t.le(rt, hi.v))))
    return v, e


def newton(func, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50,
           fprime2=None, x1=None, rtol=0.0, full_output=False, disp=True):
    v, e = _root(func, args, 'newton', x0=x0, fprime=fprime)
    if full_output:
        raise Unsupported('newton full_output')
    return v


def brentq(f, a, b, args=(), **k):
    if k.get('full_output'):
        raise Unsupported('brentq full_output')
    return _root(f, args, 'brentq', box=(a, b))[0]


def find_root(f, init, args=(), **k):
    v, e = _root(f, args, 'chandrupatla', box=init)
    return Result(x=v, f_x=e, success=True)


def find_minimum(f, init, args=(), **k):
    """a point of the bracket that is not worse than its middle point"""
    c = _ctx.get()
    v, e = _root(f, args, 'min', box=init)
    lo, mid, hi = init
    m = xc(A.of(f(mid, *args)).d.reshape(-1)[0])
    c.axiom(t.bor(m.nan, t.band(t.bnot(e.nan), x.x_le(e, m))))
    l, h = (xc(A.of(b).d.reshape(-1)[0]) for b in (lo, hi))
    xv = xc(A.of(v).d.reshape(-1)[0]).v
    c.axiom(t.bor(l.nan, h.nan, t.band(t.le(l.v, xv), t.le(xv, h.v))))
    g = isinstance(v, A)
    return Result(x=v, f_x=A.generic(e) if g else e, success=True)


class _Mod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        def f(*a, **k):
            raise Unsupported(f'{self.__name__}.{n}')
        f.__name__ = n
        return f


def mkmods():
    special = _Mod('scipy.special')
    _install()
    special.lambertw = lambertw
    special.exp10 = lambda z: ew2('pow', 10., z)
    special.erf = erf
    special.erfinv = erfinv
    special.expi = expi
    special.exp1 = exp1
    special.exprel = lambda z: ew2('div', ew(lambda e: x.x_expm1(xc(e)),
                                             (z,)), z)
    constants = _Mod('scipy.constants')
    for n in dir(_const):
        v = getattr(_const, n)
        if isinstance(v, float):
            setattr(constants, n, X(t.PI) if n == 'pi' else xc(v))
        elif not n.startswith('_'):
            setattr(constants, n, v)
    constants.convert_temperature = convert_temperature
    integrate = _Mod('scipy.integrate')
    integrate.trapezoid = trapezoid
    integrate.trapz = trapezoid
    optimize = _Mod('scipy.optimize')
    optimize.elementwise = _Mod('scipy.optimize.elementwise')
    optimize.newton = newton
    optimize.brentq = brentq
    optimize.elementwise.find_root = find_root
    optimize.elementwise.find_minimum = find_minimum
    interpolate = _Mod('scipy.interpolate')
    interpolate.splev = splev
    interpolate.make_interp_spline = make_interp_spline
    linalg = _Mod('scipy.linalg')
    spatial = _Mod('scipy.spatial')
    spatial.distance = _Mod('scipy.spatial.distance')
    sp = _Mod('scipy')
    for m in (special, constants, integrate, optimize, interpolate, linalg,
              spatial):
        setattr(sp, m.__name__.split('.')[-1], m)
    mods = {'scipy': sp}
    for m in (special, constants, integrate, optimize, interpolate, linalg,
              spatial, spatial.distance, optimize.elementwise):
        mods[m.__name__] = m
    return mods


def convert_temperature(val, old, new):
    zero = X(t.C(Fr('273.15')))
    old, new = old.lower(), new.lower()
    def tok(v):
        if old in ('celsius', 'c'):
            return v + zero
        if old in ('kelvin', 'k'):
            return v
        if old in ('fahrenheit', 'f'):
            return (v - 32) * X(t.C(Fr(5, 9))) + zero
        raise Unsupported(old)
    def fromk(v):
        if new in ('celsius', 'c'):
            return v - zero
        if new in ('kelvin', 'k'):
            return v
        if new in ('fahrenheit', 'f'):
            return (v - zero) * X(t.C(Fr(9, 5))) + 32
        raise Unsupported(new)
    if hasattr(val, '_as_A') and not isinstance(val, A):
        val = val._as_A()
    return fromk(tok(val))
