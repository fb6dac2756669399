# include decomplib
"""DIRINT over a history of any length, proved from neighbouring rows (C22)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd
COEF = np.array(table('dirint'))
IR_ = 'pvlib.irradiance.'
TIMES = Times('Etc/GMT+7', ordered=True)
KT = [.24, .4, .56, .7, .8]
ZB = [25, 40, 55, 70, 80]
DK = [.015, .035, .07, .15, .3]


def mean2(a, b):
    """mean of the values that are not missing"""
    return np.where(isnan(a), b, np.where(isnan(b), a, (a + b)/2))


def change(kt):
    """mean change to the neighbouring rows, where there are any"""
    k = np.asarray(kt)
    return mean2(np.abs(k - np.asarray(after(kt))),
                 np.abs(k - np.asarray(prev(kt))))


@lemma('C22', IR_ + '_delta_kt_prime_dirint', rows=True, kinds=('series',),
       args=dict(times=TIMES, kt=E(0, 1), use=Opt(True, False)))
def neighbours(times, kt, use):
    got = module('pvlib.irradiance')._delta_kt_prime_dirint(kt, use, times)
    if use:
        yield 'delta', eq(np.asarray(got), np.asarray(change(kt)))
    else:
        yield 'delta', eq(np.asarray(got), -1 + 0*np.asarray(unix(times)))


def bin_of(v, edges, lo, hi):
    """number (from 1) of the half-open bin, 0 outside [lo, hi]"""
    n = np.where((v >= lo) & (v < edges[0]), 1, 0)
    for i, e in enumerate(edges):
        top = edges[i + 1] if i + 1 < len(edges) else np.inf
        n = np.where((v >= e) & (v < top), i + 2, n)
    return np.where(v > hi, 0, n)


def factor(kt, z, w, dk):
    """coefficient of the cell; missing outside of the table"""
    b, zb = bin_of(kt, KT, 0, 1), bin_of(z, ZB, 0, np.inf)
    wb = np.where(w == -1, 5, bin_of(w, [1, 2, 3], 0, np.inf))
    db = np.where(dk == -1, 7, bin_of(dk, DK, 0, 1))
    ok = (b > 0) & (zb > 0) & (wb > 0) & (db > 0)
    return np.where(ok, COEF[b - 1, zb - 1, db - 1, wb - 1], np.nan)


@lemma('C22', IR_ + '_dirint_coeffs', kinds=('series',), args=dict(
    times=Times('Etc/GMT+7'), kt=E(-.1, 1.1, sp=[0, 1] + KT),
    z=E(0, 100, sp=[0] + ZB), w=E(-1, 5, sp=[-1, 0, 1, 2, 3]),
    dk=E(-1, 1.1, sp=[-1, 0, 1] + DK)))
def cell(times, kt, z, w, dk):
    got = module('pvlib.irradiance')._dirint_coeffs(times, kt, z, w, dk)
    yield 'coefficient', eq(np.asarray(got), factor(
        np.asarray(kt), np.asarray(z), np.asarray(w), np.asarray(dk)))


SKY = dict(times=TIMES, ghi=E(0, 1100), zen=E(0, 95))
OPT = dict(dew=Opt(None, E(-10, 25)), use=Opt(True, False),
           k=Opt({}, dict(pressure=85000.), dict(
               min_cos_zenith=.2, max_zenith=80)))


# callees under their own contracts (C03, C10) are opaque here
DISC = {IR_ + 'disc': ufn(IR_ + 'disc', ('dni', 'kt', 'airmass'),
                          form='frame', noinf=True),
        IR_ + 'clearness_index_zenith_independent': ufn(
            IR_ + 'clearness_index_zenith_independent', array=True,
            noinf=True)}
DIRI = {IR_ + 'dirint': ufn(IR_ + 'dirint', array=True)}


def dirint_of(ghi, zen, times, dew, use, k):
    o = dict(pressure=101325.)
    o.update(k)
    out = pv.irradiance.disc(ghi, zen, times, **o)
    kt = pv.irradiance.clearness_index_zenith_independent(
        out['kt'], out['airmass'], max_clearness_index=1)
    z = np.asarray(zen)
    w = -1 + 0*np.asarray(unix(times)) if dew is None else np.exp(
        .07*np.asarray(dew) - .075)
    d = np.asarray(pd.DataFrame(dict(
        a=(kt - after(kt)).abs(), b=(kt - prev(kt)).abs())).mean(
            axis=1)) if use else -1 + 0*np.asarray(unix(times))
    return np.asarray(out['dni'])*factor(np.asarray(kt), z, w, d)


@lemma('C22', IR_ + 'dirint', rows=True, args=dict(SKY, **OPT),
       kinds=('series',), symstubs=DISC)
def dirint_rows(times, ghi, zen, dew, use, k):
    got = pv.irradiance.dirint(ghi, zen, times, use_delta_kt_prime=use,
                               temp_dew=dew, **k)
    yield 'dni', eq(np.asarray(got), dirint_of(ghi, zen, times, dew, use, k))


@lemma('C22', IR_ + 'dirindex', rows=True, args=dict(
    SKY, ghi_clear=E(0, 1100), dni_clear=E(0, 1000), **OPT),
    kinds=('series',), symstubs=DIRI)
def dirindex_rows(times, ghi, zen, ghi_clear, dni_clear, dew, use, k):
    got = pv.irradiance.dirindex(
        ghi, ghi_clear, dni_clear, zen, times, use_delta_kt_prime=use,
        temp_dew=dew, **k)
    o = dict(use_delta_kt_prime=use, temp_dew=dew, **k)
    r = np.asarray(dni_clear*pv.irradiance.dirint(ghi, zen, times, **o) /
                   pv.irradiance.dirint(ghi_clear, zen, times, **o))
    yield 'dni', eq(np.asarray(got), np.where(r < 0, 0, r))


# what the stubs above take from the contracts of the callees
def not_infinite(v):
    return either(isnan(v), isfinite(v))


@lemma('C22', IR_ + 'disc', kinds=('series',), args=dict(
    times=Times('Etc/GMT+7'), ghi=E(0, 1100), zen=E(0, 95),
    k=OPT['k']))
def disc_never_infinite(times, ghi, zen, k):
    got = pv.irradiance.disc(ghi, zen, times, **k)
    for n in ('dni', 'kt', 'airmass'):
        yield n, not_infinite(got[n])


@lemma('C22', IR_ + 'clearness_index_zenith_independent',
       kinds=('array', 'series'), args=dict(
           kt=E(0, 1.2), am=E(1, 40)))
def kt_never_infinite(kt, am):
    yield 'kt', not_infinite(pv.irradiance.clearness_index_zenith_independent(
        kt, am, max_clearness_index=1))
