"""Single-diode equation and its solvers (C08)."""
from pvc.api import *
import numpy as np
import pandas as pd
from scipy.special import lambertw

D_ = 'pvlib.singlediode.'
V_ = 'pvlib.pvsystem.'
IL = E(0, 12, nan=False, req=True, sp=[0])
ILP = E(0.01, 12, nan=False, gt=0)
I0 = E(1e-11, 1e-7, nan=False, gt=0)
RS = E(0.01, 1, nan=False, gt=0)
RSH = E(50, 5000, nan=False, gt=0)
NV = E(0.5, 4, nan=False, gt=0)
PAR = dict(il=IL, i0=I0, rs=RS, rsh=RSH, a=NV)
PARP = dict(il=ILP, i0=I0, rs=RS, rsh=RSH, a=NV)
LW = {'pvlib.ivtools.utils._lambertw_pvlib': lambda z: lambertw(z).real}


def rhs(v, i, il, i0, rs, rsh, a):
    """right-hand side of the single diode equation"""
    d = v + i*rs
    return il - i0*(np.exp(d/a) - 1) - d/rsh


def residual(v, i, il, i0, rs, rsh, a):
    """scaled so that a zero is reached to rounding"""
    if is_sym():
        return i - rhs(v, i, il, i0, rs, rsh, a)
    with np.errstate(all='ignore'):
        d = v + i*rs
        slope = 1 + rs*(i0/a*np.exp(d/a) + 1/rsh)
        return (i - rhs(v, i, il, i0, rs, rsh, a))/slope


# ------------------------------------------------------------------ bishop88
BASE = dict(diode_voltage=E(-5, 50, lt=55), photocurrent=E(0, 12),
            saturation_current=E(1e-11, 1e-7), resistance_series=E(0, 1),
            resistance_shunt=E(50, 5000, gt=0), nNsVth=E(0.5, 4, gt=0))


def unbroken(diode_voltage, breakdown_voltage, **k):
    return [0 < 1 - diode_voltage/breakdown_voltage]


@contract(D_ + 'bishop88', prop='C08',
          args=dict(BASE, d2mutau=Opt(0, E(0.5, 2, gt=0, nan=False), 1.4),
                    NsVbi=Opt(np.inf, P(60, 90, gt=55)),
                    breakdown_factor=0., breakdown_voltage=-5.5,
                    breakdown_exp=Opt(2, 3.28), gradients=Opt(False, True)),
          pre=unbroken, kinds=('array', 'scalar'), loose=True)
def bishop88_recombination(**k):
    return bishop88(**k)


@contract(D_ + 'bishop88', prop='C08', name=D_ + 'bishop88(breakdown)',
          args=dict(BASE, d2mutau=0, NsVbi=np.inf,
                    breakdown_factor=P(0, 1e-3), breakdown_voltage=Opt(
                        -5.5, P(-30, -6, lt=0)),
                    breakdown_exp=P(2, 4), gradients=Opt(False, True)),
          pre=unbroken, kinds=('array',), loose=True)
def bishop88_breakdown(**k):
    return bishop88(**k)


def bishop88(diode_voltage, photocurrent, saturation_current,
             resistance_series, resistance_shunt, nNsVth, d2mutau, NsVbi,
             breakdown_factor, breakdown_voltage, breakdown_exp, gradients):
    vd, il, i0 = diode_voltage, photocurrent, saturation_current
    rs, rsh, a = resistance_series, resistance_shunt, nNsVth
    b = 1 - vd/breakdown_voltage
    k = -breakdown_exp
    with np.errstate(all='ignore'):
        vr = np.where(d2mutau > 0, NsVbi - vd, np.inf)
        ir = np.where(d2mutau > 0, il*d2mutau/vr, 0)
        i = (il - i0*(np.exp(vd/a) - 1) - vd/rsh - ir
             - breakdown_factor*vd/rsh*b**k)
        v = vd - i*rs
        if not gradients:
            return i, v, i*v
        f = breakdown_factor/rsh
        m = breakdown_exp/breakdown_voltage
        m1 = (breakdown_exp + 1)/breakdown_voltage
        # first and second derivative by the diode voltage
        di = (-i0/a*np.exp(vd/a) - 1/rsh - ir/vr
              - f*(b**k + vd*m*b**(k - 1)))
        d2i = (-i0/a**2*np.exp(vd/a) - 2*ir/vr**2
               - f*m*(2*b**(k - 1) + vd*m1*b**(k - 2)))
        dv = 1 - di*rs
        d2v = -d2i*rs
        g = di/dv
        dg = (d2i*dv - di*d2v)/dv**2
        return i, v, i*v, di, dv, g, v*g + i, dv*g + v*dg + di


# --------------------------------------------------------- Lambert-W solvers
LWT = dict(symstubs=LW, atol=1e-7)


@lemma('C08', V_ + 'i_from_v', args=dict(PARP, v=E(0, 50, nan=False)),
       kinds=('array', 'series', 'scalar'), **LWT)
def lambert_current(v, il, i0, rs, rsh, a):
    i = pv.pvsystem.i_from_v(v, il, i0, rs, rsh, a)
    yield 'current satisfies the single diode equation', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-6)
    z = pv.pvsystem.i_from_v(v, il, i0, 0*rs, rsh, a)
    yield 'explicit without series resistance', eq(
        z, rhs(v, 0, il, i0, 0, rsh, a))


@lemma('C08', V_ + 'v_from_i', args=dict(PARP, i=E(-5, 5, nan=False)),
       pre=lambda i, il, **k: [i < il],
       kinds=('array', 'series', 'scalar'), **LWT)
def lambert_voltage(i, il, i0, rs, rsh, a):
    v = pv.pvsystem.v_from_i(i, il, i0, rs, rsh, a)
    yield 'voltage satisfies the single diode equation', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-6)
    z = pv.pvsystem.v_from_i(i, il, i0, rs, np.inf + 0*rsh, a)
    yield 'explicit without shunt', eq(
        z, a*np.log((il - i)/i0 + 1) - i*rs)


SOLVERS = Opt('newton', 'brentq', 'chandrupatla')


@lemma('C08', V_ + 'i_from_v',
       args=dict(PARP, v=E(0, 15, nan=False, req=True), method=SOLVERS),
       pre=lambda v, il, i0, a, **k: [v <= a*np.log(il/i0 + 1)],
       kinds=('array', 'scalar'), nconc=15)
def solver_current(v, il, i0, rs, rsh, a, method):
    i = pv.pvsystem.i_from_v(v, il, i0, rs, rsh, a, method=method)
    yield 'current satisfies the single diode equation', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-5)


@lemma('C08', V_ + 'v_from_i',
       args=dict(PARP, i=E(0, 12, nan=False, req=True), method=SOLVERS),
       pre=lambda i, il, **k: [i <= il],
       kinds=('array', 'scalar'), nconc=15)
def solver_voltage(i, il, i0, rs, rsh, a, method):
    v = pv.pvsystem.v_from_i(i, il, i0, rs, rsh, a, method=method)
    yield 'voltage satisfies the single diode equation', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-5)


def power_slope(v, i, i0, rs, rsh, a):
    """derivative of v*i along the curve, by the voltage"""
    g = i0/a*np.exp((v + i*rs)/a) + 1/rsh
    return i - v*g/(1 + rs*g)


@lemma('C08', D_ + 'bishop88_mpp', args=dict(PARP, method=SOLVERS),
       kinds=('array', 'scalar'), nconc=15)
def solver_mpp(il, i0, rs, rsh, a, method):
    i, v, p = pv.singlediode.bishop88_mpp(il, i0, rs, rsh, a, method=method)
    yield 'point on the curve', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-5)
    yield 'stationary power', eq(power_slope(v, i, i0, rs, rsh, a), 0,
                                 atol=1e-4)
    yield 'power', eq(p, i*v)


@lemma('C08', D_ + 'bishop88_mpp', name=D_ + 'bishop88_mpp(mixed)',
       args=dict(PARP, method=SOLVERS, one=Opt('il', 'i0', 'rs', 'rsh', 'a'),
                 many=Opt(True, False)), kinds=('array',), nconc=8,
       bounded=True)
def solver_mixed(il, i0, rs, rsh, a, method, one, many):
    """scalars and arrays together, whole photocurrents"""
    k = dict(il=il, i0=i0, rs=rs, rsh=rsh, a=a)
    k = {n: v if (n == one) == many else v[0] for n, v in k.items()}
    names = ('photocurrent', 'saturation_current', 'resistance_series',
             'resistance_shunt', 'nNsVth')
    f = pv.singlediode
    for whole in (False, True):
        if whole:
            k['il'] = np.ceil(k['il']).astype(int)
        arg = dict(zip(names, [k[n] for n in ('il', 'i0', 'rs', 'rsh', 'a')]))
        i, v, p = f.bishop88_mpp(**arg, method=method)
        yield 'point on the curve', eq(
            residual(v, i, **k), 0, atol=1e-5)
        yield 'stationary power', eq(
            power_slope(v, i, k['i0'], k['rs'], k['rsh'], k['a']), 0,
            atol=1e-4)
        v = f.bishop88_v_from_i(k['il']*.5, **arg, method=method)
        yield 'voltage', eq(residual(v, k['il']*.5, **k), 0, atol=1e-5)
        i = f.bishop88_i_from_v(.2, **arg, method=method)
        yield 'current', eq(residual(.2, i, **k), 0, atol=1e-5)


@lemma('C08', V_ + 'max_power_point', args=dict(PARP, method=SOLVERS),
       kinds=('array', 'series', 'scalar'), nconc=15)
def max_power(il, i0, rs, rsh, a, method):
    r = pv.pvsystem.max_power_point(il, i0, rs, rsh, a, method=method)
    i, v, p = r['i_mp'], r['v_mp'], r['p_mp']
    yield 'point on the curve', eq(
        residual(v, i, il, i0, rs, rsh, a), 0, atol=1e-5)
    yield 'stationary power', eq(power_slope(v, i, i0, rs, rsh, a), 0,
                                 atol=1e-4)
    yield 'power', eq(p, i*v)


CALLEE = {n: ufn(n, facts=lambda r, **k: [isfinite(r)]) for n in (D_ + '_lambertw_i_from_v',
                             D_ + '_lambertw_v_from_i')}
POINTS = ['i_sc', 'v_oc', 'i_mp', 'v_mp', 'p_mp', 'i_x', 'i_xx']


@lemma('C08', V_ + 'singlediode',
       args=dict(PARP, method=Opt('newton', 'brentq', 'chandrupatla')),
       kinds=('array', 'series', 'scalar'), nconc=15, symstubs=CALLEE)
def curve_points(il, i0, rs, rsh, a, method):
    yield from points(il, i0, rs, rsh, a, method)


@lemma('C08', V_ + 'singlediode', name=V_ + 'singlediode(lambertw)',
       args=dict(PARP, il=E(-.05, 12, nan=False, req=True, sp=[0, -.01])),
       kinds=('array', 'series', 'scalar'), nconc=15, symstubs=CALLEE)
def curve_points_lambertw(il, i0, rs, rsh, a):
    yield from points(il, i0, rs, rsh, a, 'lambertw')


def points(il, i0, rs, rsh, a, method):
    r = pv.pvsystem.singlediode(il, i0, rs, rsh, a, method=method)
    yield 'points', list(r.keys()) == POINTS
    isc, voc, im, vm, pm, ix, ixx = [r[k] for k in POINTS]

    par = il, i0, rs, rsh, a

    def on(v, i):
        """the points of the curve are those of i_from_v (under contract)"""
        if method == 'lambertw':
            return eq(pv.pvsystem.i_from_v(v, *par), i, atol=1e-6)
        return eq(residual(v, i, *par), 0, atol=1e-5)
    yield 'short circuit', on(0, isc)
    if method == 'lambertw':
        v0 = pv.pvsystem.v_from_i(0, *par)
        yield 'open circuit', either(
            eq(v0, voc), both(eq(voc, 0), lt(-1e-12, v0), lt(v0, 0)))
    else:
        yield 'open circuit', on(voc, 0)
    yield 'maximum power point', on(vm, im)
    yield 'half the open circuit voltage', on(voc/2, ix)
    yield 'middle of open circuit and maximum power', on((voc + vm)/2, ixx)
    yield 'power', eq(pm, im*vm, rtol=1e-6)
    if method != 'lambertw':
        yield 'stationary power', eq(
            power_slope(vm, im, i0, rs, rsh, a), 0, atol=1e-4)
    else:
        v = 0.8*voc
        yield 'power is not below that at 80 % of the voltage', ge(
            pm, v*pv.pvsystem.i_from_v(v, *par), tol=1e-6)


@contract(D_ + 'estimate_voc', prop='C08',
          args=dict(photocurrent=E(0, 12), saturation_current=E(1e-11, 1e-7),
                    nNsVth=E(0.5, 4)), kinds=('array', 'scalar'))
def estimate_voc(photocurrent, saturation_current, nNsVth):
    with np.errstate(all='ignore'):
        return nNsVth*np.log(np.asarray(photocurrent)/saturation_current + 1)


# --------------------------------------------------- Lambert W itself: bounded
@contract('pvlib.ivtools.utils._lambertw_pvlib', prop='C08', bounded=True,
          args=dict(x=E(0, 1e3, nan=False, sp=[0, 1e-300, 1e-9, 1., 99.9999,
                                               100., 100.0001, 1e8, 1e100,
                                               1e300])),
          kinds=('array',), rtol=1e-8)
def lambertw_pvlib(x):
    return lambertw(x).real


@lemma('C08', 'pvlib.ivtools.utils._log_lambertw', bounded=True,
       args=dict(logx=E(5, 1e5, nan=False, sp=[5., 700., 710., 1e4])),
       kinds=('array',))
def log_lambertw(logx):
    w = pv.ivtools.utils._log_lambertw(logx)
    yield 'w + log(w) = log(x)', eq(w + np.log(w), logx, rtol=1e-8)
