# include decomplib
"""DIRINT, DIRINDEX, GTI-DIRINT and GHI from plane-of-array (C22)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd
COEF = np.array(table('dirint'))
KT = [.24, .4, .56, .7, .8]
ZB = [25, 40, 55, 70, 80]
DK = [.015, .035, .07, .15, .3]


def bin_of(v, edges, lo, hi):
    """number (from 1) of the half-open bin, 0 outside [lo, hi]"""
    n = np.where((v >= lo) & (v < edges[0]), 1, 0)
    for i, e in enumerate(edges):
        top = edges[i + 1] if i + 1 < len(edges) else np.inf
        n = np.where((v >= e) & (v < top), i + 2, n)
    return np.where(v > hi, 0, n)


def bins(kt, z, w, dk):
    return (bin_of(kt, KT, 0, 1), bin_of(z, ZB, 0, np.inf),
            np.where(w == -1, 5, bin_of(w, [1, 2, 3], 0, np.inf)),
            np.where(dk == -1, 7, bin_of(dk, DK, 0, 1)))


BIN = dict(times=Times('Etc/GMT+7'), kt=E(-.1, 1.1, sp=[0, 1] + KT),
           z=E(0, 100, sp=[0] + ZB), w=E(-1, 5, sp=[-1, 0, 1, 2, 3]),
           dk=E(-1, 1.1, sp=[-1, 0, 1] + DK))


@lemma('C22', 'pvlib.irradiance._dirint_bins', args=BIN, kinds=('series',))
def dirint_bins(times, kt, z, w, dk):
    got = module('pvlib.irradiance')._dirint_bins(times, kt, z, w, dk)
    for n, g, v in zip(('kt', 'zenith', 'w', 'delta'), got, bins(
            kt, z, w, dk)):
        yield n, eq(g, v)


@lemma('C22', 'pvlib.irradiance._get_dirint_coeffs', args={})
def dirint_table():
    got = module('pvlib.irradiance')._get_dirint_coeffs()
    yield 'shape', got.shape == (6, 6, 7, 5)
    yield 'values', bool(np.all(np.abs(got - COEF) < 1e-12))


MID = dict(kt=[.1, .3, .5, .65, .75, .9], z=[10, 30, 50, 60, 75, 85],
           dk=[.01, .02, .05, .1, .2, .5, -1], w=[.5, 1.5, 2.5, 4, -1])


@lemma('C22', 'pvlib.irradiance._dirint_coeffs', args={}, bounded=True,
       nconc=1)
def dirint_lookup():
    g = np.meshgrid(*[np.arange(len(v)) for v in MID.values()],
                    indexing='ij')
    i, j, k, m = [v.ravel() for v in g]
    t = pd.date_range('2020-01-01', periods=len(i), freq='h')
    kt, z, dk, w = [pd.Series(np.array(MID[n], float)[q], index=t)
                    for n, q in zip(MID, (i, j, k, m))]
    got = module('pvlib.irradiance')._dirint_coeffs(t, kt, z, w, dk)
    yield 'every cell', eq(np.asarray(got), COEF[i, j, k, m])
    for n, v in (('kt', (2., z, w, dk)), ('zenith', (kt, -5., w, dk)),
                 ('w', (kt, z, -3., dk)), ('delta', (kt, z, w, 1.5))):
        v = [pd.Series(q, index=t) for q in v]
        got = module('pvlib.irradiance')._dirint_coeffs(t, *v)
        yield 'outside in ' + n, bool(np.all(np.isnan(got)))


def delta(kt):
    """mean change to the neighbouring times"""
    k = np.asarray(kt, float)
    out = []
    for i in range(len(k)):
        c = [abs(k[i] - k[j]) for j in (i - 1, i + 1) if 0 <= j < len(k)]
        c = [v for v in c if v == v]
        out.append(sum(c)/len(c) if c else np.nan)
    return np.array(out)


def enhanced(kt, z, w, use):
    b, zb, wb, db = [np.asarray(v) for v in bins(
        kt, z, np.full(len(kt), -1.) if w is None else np.exp(
            .07*np.asarray(w) - .075), delta(kt) if use else
        np.full(len(kt), -1.))]
    ok = (b > 0) & (zb > 0) & (wb > 0) & (db > 0)
    return np.where(ok, COEF[b - 1, zb - 1, db - 1, wb - 1], np.nan)


def kprime(kt, am, top=1.):
    with np.errstate(all='ignore'):
        f = 1.031*np.exp(-1.4/(.9 + 9.4/am)) + .1
        return np.minimum(np.maximum(kt/f, 0), top)


def dirint_ref(ghi, z, t, pressure=101325., use=True, dew=None, minc=.065,
               maxz=87):
    dni, kt, am = [np.asarray(v, float) for v in disc_all(
        np.asarray(ghi), np.asarray(z), t, pressure, minc, maxz)]
    return dni*enhanced(kprime(kt, am), np.asarray(z), dew, use)


SKY = dict(times=Times('Etc/GMT+7'), ghi=E(0, 1100), zen=E(0, 95))
OPT = dict(dew=Opt(None, E(-10, 25)), use=Opt(True, False),
           k=Opt({}, dict(pressure=85000.), dict(
               min_cos_zenith=.2, max_zenith=80)))


def kw(k):
    n = dict(pressure='pressure', min_cos_zenith='minc', max_zenith='maxz')
    return {n[a]: v for a, v in k.items()}


@lemma('C22', 'pvlib.irradiance.dirint', bounded=True, args=dict(
    SKY, **OPT), kinds=('series',), nconc=12)
def dirint(times, ghi, zen, dew, use, k):
    got = pv.irradiance.dirint(
        ghi, zen, times, use_delta_kt_prime=use, temp_dew=dew, **k)
    yield 'dni', eq(np.asarray(got), dirint_ref(
        ghi, zen, times, use=use, dew=dew, **kw(k)))
    yield 'index', got.index.equals(times)
    got = pv.irradiance.dirint(ghi, zen, times)
    yield 'defaults', eq(np.asarray(got), dirint_ref(ghi, zen, times))


@lemma('C22', 'pvlib.irradiance.dirindex', bounded=True, args=dict(
    SKY, ghi_clear=E(0, 1100), dni_clear=E(0, 1000), **OPT),
    kinds=('series',), nconc=12)
def dirindex(times, ghi, zen, ghi_clear, dni_clear, dew, use, k):
    got = pv.irradiance.dirindex(
        ghi, ghi_clear, dni_clear, zen, times, use_delta_kt_prime=use,
        temp_dew=dew, **k)
    o = dict(use=use, dew=dew, **kw(k))
    with np.errstate(all='ignore'):
        r = np.asarray(dni_clear)*dirint_ref(ghi, zen, times, **o) / \
            dirint_ref(ghi_clear, zen, times, **o)
    yield 'dni', eq(np.asarray(got), np.where(r < 0, 0, r))


# -------------------------------------------------------------- gti_dirint
def marion(poa, aoi, z, az, t, tilt, saz, pressure, use, dew, albedo,
           model_perez, n, gt):
    """Marion (2015) on a real pvlib transposition"""
    e = pd.Series(1370*rr(doyof(t)), index=t)
    c = cosd(z)
    am = pd.Series(am66(np.asarray(z)), index=t)*pressure/101325
    p, best = poa, None
    for i in range(n):
        if best is not None and bool((best[0][aoi < 90] <= 1).all()):
            break
        kt = ktf(p, aoi, e, top=2.)
        disc = pd.Series(np.maximum(kn_of(kt, am)*e, 0), index=t)
        kp = kprime(kt, am, 2.)
        dni = disc*enhanced(np.asarray(kp), np.asarray(z), dew, use)
        ghi = kt*e*np.maximum(c, .065)
        dhi = np.maximum(ghi - dni*c, 0)
        dni, ghi = np.maximum(dni, 0), np.maximum(ghi, 0)
        d = pv.irradiance.get_total_irradiance(
            tilt, saz, z, az, dni, ghi, dhi, dni_extra=e, airmass=am,
            albedo=albedo, model='perez', model_perez=model_perez)[
                'poa_global'] - poa
        new = (d.abs(), ghi, dni, dhi, kp)
        if best is None:
            less = d.abs() < 9999
            best = (d.abs().where(less, 9999),) + new[1:]
        else:
            less = d.abs() < best[0]
            best = tuple(a.where(less, b) for a, b in zip(new, best))
        step = 1 if i < 3 else .5 if i < 10 else .25 if i < 20 else .125
        p = np.maximum(1., p - step*d)
    _, ghi, dni, dhi, kp = best
    if gt:
        day = np.asarray(t.date)
        k9 = np.full(len(t), np.nan)
        for i in range(len(t)):
            if not (aoi.iloc[i] >= 90 and z.iloc[i] < 90) or az.iloc[i] == 180:
                continue
            half = az < 180 if az.iloc[i] < 180 else az > 180
            m = (day == day[i]) & np.asarray((aoi > 65) & (aoi < 80) & half)
            v = kp[m]
            k9[i] = v.mean() if len(v) else np.nan
        with np.errstate(all='ignore'):
            kt = k9*(1.031*np.exp(-1.4/(.9 + 9.4/am)) + .1)
        disc = np.maximum(kn_of(kt, am)*e, 0)
        b = disc*enhanced(np.asarray(kp), np.asarray(z), dew, False)*1.
        bp = b*c
        ct = cosd(tilt)
        diffuse = (2*poa - bp*albedo*(1 - ct))/(1 + ct + albedo*(1 - ct))
        back = (bp + diffuse, b, diffuse)
    else:
        back = (np.nan,)*3
    return [a.where(aoi < 90, b) for a, b in zip((ghi, dni, dhi), back)]


def kn_of(kt, am):
    am = np.minimum(am, 12)
    lo = kt <= .6
    a = np.where(lo, .512 + kt*(-1.56 + kt*(2.286 - 2.222*kt)),
                 -5.743 + kt*(21.77 + kt*(-27.49 + 11.56*kt)))
    b = np.where(lo, .37 + .962*kt, 41.4 + kt*(-118.5 + kt*(
        66.05 + 31.9*kt)))
    c = np.where(lo, -.28 + kt*(.932 - 2.048*kt), -47.01 + kt*(
        184.2 + kt*(-222. + 73.81*kt)))
    return .866 + am*(-.122 + am*(.0121 + am*(-.000653 + 1.4e-5*am))) - (
        a + b*np.exp(c*am))


@lemma('C22', 'pvlib.irradiance.gti_dirint', bounded=True, args=dict(
    poa=E(20, 1100, nan=False), tilt=P(10, 70), saz=P(90, 270),
    day=Opt(80, 172, 330), lat=P(25, 50),
    setup=Opt(*[dict(dict(pressure=101325., use=True, dew=None, albedo=.25,
                          model_perez='allsitescomposite1990', n=30,
                          gt=True), **v) for v in (
        {}, dict(pressure=85000., albedo=.6), dict(use=False, dew=10.),
        dict(gt=False, n=5), dict(n=1), dict(
            model_perez='france1988', albedo=.1))])),
    kinds=('array',), nconc=2)
def gti_dirint(poa, tilt, saz, day, lat, setup):
    if len(poa) < 20:
        return
    o = dict(setup)
    t = pd.date_range(pd.Timestamp('2021-01-01', tz='Etc/GMT') +
                      pd.Timedelta(days=day), periods=48, freq='h')
    h = np.asarray(t.hour) + .5
    dec = np.radians(23.45*np.sin(np.radians(360*(284 + day)/365)))
    ha, la = np.radians(15*(h - 12)), np.radians(lat)
    cz = np.sin(la)*np.sin(dec) + np.cos(la)*np.cos(dec)*np.cos(ha)
    z = pd.Series(np.degrees(np.arccos(cz)), index=t)
    az = pd.Series((180 + np.degrees(np.arctan2(
        np.sin(ha), np.cos(ha)*np.sin(la) - np.tan(dec)*np.cos(la)))) % 360,
        index=t)
    aoi = pv.irradiance.aoi(tilt, saz, z, az)
    if not (aoi < 90).any():
        return
    v = np.resize(np.asarray(poa, float), len(t))
    p = pd.Series(np.where(aoi < 90, v*np.maximum(cosd(aoi), .05), v*.1),
                  index=t).where(z < 88, 0.)
    dew = None if o['dew'] is None else pd.Series(o['dew'], index=t)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = pv.irradiance.gti_dirint(
            p, aoi, z, az, t, tilt, saz, pressure=o['pressure'],
            use_delta_kt_prime=o['use'], temp_dew=dew, albedo=o['albedo'],
            model_perez=o['model_perez'], calculate_gt_90=o['gt'],
            max_iterations=o['n'])
        want = marion(p, aoi, z, az, t, tilt, saz, o['pressure'], o['use'],
                      dew, o['albedo'], o['model_perez'], o['n'], o['gt'])
    for n, w in zip(('ghi', 'dni', 'dhi'), want):
        yield n, eq(np.asarray(got[n]), np.asarray(w), rtol=1e-6, atol=1e-6)
    yield 'no time in front', raises(
        ValueError, pv.irradiance.gti_dirint, p, aoi*0 + 95, z, az, t, tilt,
        saz)


# ------------------------------------------------------- ghi_from_poa
@lemma('C22', 'pvlib.irradiance.ghi_from_poa_driesse_2024', bounded=True,
       args=dict(tilt=E(0, 60, nan=False), azimuth=E(90, 270, nan=False),
                 zen=E(0, 85, nan=False), sun=E(0, 360, nan=False),
                 poa=E(-5, 1100, sp=[0]), extra=E(1300, 1420, nan=False),
                 am=Opt(None, E(1, 10, nan=False)),
                 albedo=Opt(None, P(.1, .6)), xtol=Opt(None, .1)),
       kinds=('array', 'series', 'scalar'), nconc=3)
def ghi_from_poa(tilt, azimuth, zen, sun, poa, extra, am, albedo, xtol):
    f = pv.irradiance.ghi_from_poa_driesse_2024
    k = {n: v for n, v in (('airmass', am), ('albedo', albedo),
                           ('xtol', xtol)) if v is not None}
    ghi, conv, n = f(tilt, azimuth, zen, sun, poa, extra, full_output=True,
                     **k)
    yield 'same alone', eq(f(tilt, azimuth, zen, sun, poa, extra, **k), ghi)
    tol = 1.01*(xtol or .01)
    m = pv.irradiance

    def plane(g):
        g = np.maximum(np.atleast_1d(np.asarray(g, float)), 0)
        z, e = np.atleast_1d(zen, extra)
        r = m.erbs_driesse(g, z, dni_extra=e)
        a = m.atmosphere.get_relative_airmass(z) if am is None else \
            np.atleast_1d(am)
        return m.get_total_irradiance(
            np.atleast_1d(tilt), np.atleast_1d(azimuth), z,
            np.atleast_1d(sun), r['dni'], g, r['dhi'], e, a,
            .25 if albedo is None else albedo, model='perez-driesse')[
                'poa_global']
    p, g = np.atleast_1d(np.asarray(poa, float)), np.atleast_1d(
        np.asarray(ghi, float))
    hi = np.maximum(10, 1.25*np.atleast_1d(extra)*cosd(np.atleast_1d(zen)))
    with np.errstate(all='ignore'):
        yield 'missing', bool(np.all(np.isnan(g[np.isnan(p)])))
        yield 'dark', bool(np.all(g[p <= 0] == 0))
        e0, e1 = plane(0) - p, plane(hi) - p
        solvable = (p > 0) & (e0*e1 <= 0)
        yield 'no solution in range', bool(np.all(np.isnan(
            g[(p > 0) & (e0*e1 > 0)])))
        yield 'solved', bool(np.all(~np.isnan(g[solvable])))
        lo, up = plane(g - tol) - p, plane(np.minimum(g + tol, hi)) - p
        mid = np.abs(plane(g) - p)
        yield 'matches the plane of array', bool(np.all(
            ((lo*up <= 0) | (mid < .05))[solvable]))
    if isinstance(poa, pd.Series):
        yield 'index', all(v.index.equals(poa.index)
                           for v in (ghi, conv, n))
    yield 'xtol refused', raises(ValueError, f, tilt, azimuth, zen, sun, poa,
                                 extra, xtol=0)
