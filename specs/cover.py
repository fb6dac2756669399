"""Soiling and snow accumulate over the whole history (C21)."""
from pvc.api import *
import math
import numpy as np
import pandas as pd

SO_ = 'pvlib.soiling.'
SN_ = 'pvlib.snow.'
ERF = np.vectorize(math.erf)


def index(n, step, tz=None):
    """n times; step in hours, or a pattern of steps repeated"""
    s = step if isinstance(step, tuple) else (step,)
    h = np.cumsum([0] + [s[i % len(s)] for i in range(n - 1)])
    t = pd.DatetimeIndex(pd.Timestamp('2019-02-25 18:00') + pd.to_timedelta(
        np.round(h*3600).astype('int64'), unit='s'))
    return t if tz is None else t.tz_localize('UTC').tz_convert(tz)


def hours(t):
    return (np.asarray(t.tz_localize(None) if t.tz is None else t.tz_convert(
        'UTC').tz_localize(None)).astype('datetime64[s]').astype('int64')
    )/3600.


def sparse(v, share):
    """mostly dry: only the largest values are kept"""
    v = np.asarray(v, float)
    k = np.sort(v)[int(share*(len(v) - 1))] if len(v) else 0
    return np.where(v >= k, v, 0.)


def window(h, v, width):
    """sum over the rows of the last `width` hours (a row exactly `width`
    hours old is out)"""
    return np.array([sum(v[j] for j in range(i + 1) if h[i] - h[j] < width)
                     for i in range(len(h))])


# --------------------------------------------------------------------- hsu
@lemma('C21', SO_ + 'hsu', bounded=True, args=dict(
    rain=E(0, 30, nan=False), pm25=Opt('scalar', E(1e-5, 1e-3, nan=False)),
    pm10=E(1e-5, 2e-3, nan=False), threshold=P(.5, 20), tilt=P(0, 80),
    share=Opt(.9, .5, 1), step=Opt(1, .5, 24, (1, 1, 3)),
    veloc=Opt(None, {'2_5': .0007, '10': .0011}),
    period=Opt(None, '6h', '1h')), kinds=('array',), nconc=4)
def hsu(rain, pm25, pm10, threshold, tilt, share, step, veloc, period):
    if len(rain) < 3:        # no time step
        return
    t = index(len(rain), step, 'Etc/GMT+5')
    rain = pd.Series(sparse(rain, share), index=t)
    fine = 4e-4 if isinstance(pm25, str) else pm25
    k = {}
    if veloc is not None:
        k['depo_veloc'] = dict(veloc)
    if period is not None:
        k['rain_accum_period'] = pd.Timedelta(period)
    keep = rain.copy()
    got = pv.soiling.hsu(rain, threshold, tilt, fine, pm10, **k)
    v = veloc or {'2_5': .0009, '10': .004}
    w = pd.Timedelta(period or '1h')/pd.Timedelta('1h')
    h = hours(t)
    wet = window(h, rain.values, w)
    fine, pm10 = np.broadcast_arrays(np.asarray(fine, float),
                                     np.asarray(pm10, float), rain.values)[:2]
    mass, out = 0., []
    for i in range(len(h)):
        dt = (h[i] - h[i - 1] if i else h[1] - h[0])*3600
        rate = fine[i]*v['2_5'] + max(pm10[i] - fine[i], 0)*v['10']
        mass += rate*dt*math.cos(math.radians(tilt))
        if wet[i] >= threshold:
            mass = 0.
        out.append(mass)
    want = 1 - .3437*ERF(.17*np.array(out)**.8473)
    yield 'ratio', eq(got.values, want, atol=1e-6)
    yield 'index', got.index.equals(t)
    yield 'rain is not modified', rain.equals(keep)


# ------------------------------------------------------------------ kimber
@lemma('C21', SO_ + 'kimber', bounded=True, args=dict(
    rain=E(0, 30, nan=False), threshold=P(.5, 20), rate=P(1e-4, .02),
    share=Opt(.9, .5, 1, .97), step=Opt(24, 1, 6, .5),
    opts=Opt({}, dict(grace_period=3), dict(max_soiling=.02),
             dict(initial_soiling=.05), dict(rain_accum_period=72),
             dict(grace_period=1, max_soiling=.05, initial_soiling=.01,
                  rain_accum_period=12)), wash=Opt(None, (5, 20), (0,))),
    kinds=('array',), nconc=4)
def kimber(rain, threshold, rate, share, step, opts, wash):
    if len(rain) < 3:        # no time step
        return
    t = index(len(rain), step, 'Etc/GMT+5')
    rain = pd.Series(sparse(rain, share), index=t)
    keep = rain.copy()
    k = dict(opts)
    wash = [j for j in wash or () if j < len(rain)]
    if wash:
        k['manual_wash_dates'] = [t[j].tz_localize(None) for j in wash]
    got = pv.soiling.kimber(rain, threshold, rate, **k)
    o = dict(dict(grace_period=14, max_soiling=.3, initial_soiling=0,
                  rain_accum_period=24), **opts)
    h = hours(t)
    event = window(h, rain.values, o['rain_accum_period']) > threshold
    grace = window(h, event.astype(float), 24*o['grace_period']) > 0
    s, out = o['initial_soiling'], []
    for i in range(len(h)):
        s = s + rate*step/24 if i else s
        if grace[i] or i in wash:
            s = 0
        out.append(s)
    yield 'loss', eq(got.values, np.minimum(np.array(out), o['max_soiling']),
                     atol=1e-9)
    yield 'index', got.index.equals(t)
    yield 'rain is not modified', rain.equals(keep)


# -------------------------------------------------------------------- snow
@lemma('C21', SN_ + 'fully_covered_nrel', bounded=True, args=dict(
    snow=E(0, 12, nan=False), share=Opt(.6, .9), step=Opt(1, .5, 24, (
        1, 2, 1, 5)), depth=Opt(None, E(0, 5, nan=False)),
    opts=Opt({}, dict(threshold_snowfall=.4, threshold_depth=2.5))),
    kinds=('array',), nconc=6)
def covered(snow, share, step, depth, opts):
    if len(snow) < 3:        # no time step
        return
    t = index(len(snow), step)
    snow = pd.Series(sparse(snow, share), index=t)
    d = None if depth is None else pd.Series(np.asarray(depth), index=t)
    got = pv.snow.fully_covered_nrel(snow, d, **opts)
    yield 'covered', eq(got.values.astype(float), np.array(new_snow(
        hours(t), snow.values, depth, step, **opts), float))
    yield 'index', got.index.equals(t)


def new_snow(h, snow, depth, step, threshold_snowfall=1., threshold_depth=1.,
             **k):
    out = []
    for i in range(len(h)):
        if i:
            rate = snow[i]/(h[i] - h[i - 1])
        else:
            rate = 0 if isinstance(step, tuple) else snow[i]/step
        out.append(rate > threshold_snowfall and (
            depth is None or depth[i] >= threshold_depth))
    return out


@lemma('C21', SN_ + 'coverage_nrel', bounded=True, args=dict(
    snow=E(0, 12, nan=False), share=Opt(.6, .9), step=Opt(1, .5, (1, 2)),
    poa=E(0, 900, nan=False), temp=E(-12, 8, nan=False), tilt=P(0, 90),
    depth=Opt(None, E(0, 5, nan=False)), opts=Opt(
        {}, dict(initial_coverage=1.), dict(
            initial_coverage=.4, threshold_snowfall=.4, threshold_depth=2.5,
            can_slide_coefficient=-60., slide_amount_coefficient=.05))),
    kinds=('array',), nconc=6)
def coverage(snow, share, step, poa, temp, tilt, depth, opts):
    if len(snow) < 3:        # no time step
        return
    t = index(len(snow), step, 'Etc/GMT+5')
    snow = pd.Series(sparse(snow, share), index=t)
    d = None if depth is None else pd.Series(np.asarray(depth), index=t)
    p = pd.Series(np.asarray(poa), index=t)
    a = pd.Series(np.asarray(temp), index=t)
    keep = [v.copy() for v in (snow, p, a)]
    got = pv.snow.coverage_nrel(snow, p, a, tilt, d, **opts)
    h = hours(t)
    fresh = new_snow(h, snow.values, depth, step, **opts)
    o = dict(dict(initial_coverage=0, threshold_depth=1.,
                  can_slide_coefficient=-80., slide_amount_coefficient=.197),
             **opts)
    s, slid, out = o['initial_coverage'], 0., []
    for i in range(len(h)):
        bare = depth is not None and depth[i] < o['threshold_depth']
        if fresh[i]:
            s, slid = 1., 0.
        elif i and temp[i] > poa[i]/o['can_slide_coefficient'] and not bare:
            slid += o['slide_amount_coefficient']*math.sin(math.radians(
                tilt))*(h[i] - h[i - 1])
        if bare:
            slid += 1.
        out.append(max(s - slid, 0))
    yield 'coverage', eq(got.values, np.array(out), atol=1e-7)
    yield 'index', got.index.equals(t)
    yield 'inputs are not modified', all(
        u.equals(v) for u, v in zip((snow, p, a), keep))


@contract(SN_ + 'dc_loss_nrel', prop='C21', args=dict(
    snow_coverage=E(0, 1), num_strings=Opt(1, 2, 8)),
    kinds=('array', 'series', 'scalar'))
def dc_loss(snow_coverage, num_strings):
    return np.ceil(snow_coverage*num_strings)/num_strings


@contract(SN_ + '_townsend_effective_snow', prop='C21', args=dict(
    snow_total=E(0, 100), snow_events=E(0, 10)),
    kinds=('array',), loose=True)
def effective_snow(snow_total, snow_events):
    return np.where(snow_events > 0, .5*snow_total*(
        1 + 1/np.maximum(snow_events, 1)), 0)


MON = dict(snow_total=E(0, 120, nan=False), snow_events=E(
    0, 12, nan=False, sp=[0, 1, .5]),
    relative_humidity=E(10, 100, nan=False), temp_air=E(-20, 15, nan=False),
    poa_global=E(2e4, 2e5, nan=False))


@lemma('C21', SN_ + 'loss_townsend', bounded=True, args=dict(
    MON, tilt=P(0, 80), slant=P(1, 6), edge=P(.1, 3),
    opts=Opt({}, dict(string_factor=.75), dict(
        string_factor=.75, angle_of_repose=30., front_side_fraction=.9))),
    kinds=('array', 'series'), nconc=30)
def townsend(snow_total, snow_events, relative_humidity, temp_air,
             poa_global, tilt, slant, edge, opts):
    got = pv.snow.loss_townsend(
        snow_total, snow_events, tilt, relative_humidity, temp_air,
        poa_global, slant, edge, **opts)
    o = dict(dict(string_factor=1., angle_of_repose=40.,
                  front_side_fraction=1.), **opts)
    s, n, rh, ta, g = [np.asarray(v) for v in (
        snow_total, snow_events, relative_humidity, temp_air, poa_global)]
    se = [.5*s[i]/2.54*(1 + 1/max(n[i], 1)) if n[i] > 0 else 0.
          for i in range(len(s))]
    want = []
    for i in range(len(s)):
        sw = se[i - 1]/3 + se[i]*2/3      # the month before; last for first
        c = math.cos(math.radians(tilt))
        gamma = slant*39.37*sw*c/max((edge*39.37)**2 - sw**2, .1)*2*math.tan(
            math.radians(o['angle_of_repose']))
        loss = 5.7e4*sw*c**2*(1 - .51*math.exp(-gamma))*rh[i]/100/(
            ta[i] + 273.15)**2/(g[i]/1000)**.67*o['string_factor']
        want.append(min(max(loss*o['front_side_fraction'], 0), 1))
    yield 'loss', eq(np.asarray(got), np.array(want))
