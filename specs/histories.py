"""Histories of any length, proved by induction over the rows (C21, C22).

Each contract states the value of a row from the inputs of that row and the
result of the row before (`prev`); `first` is true in the first row."""
from pvc.api import *
import datetime
import numpy as np
import pandas as pd

SO_ = 'pvlib.soiling.'
SN_ = 'pvlib.snow.'
TIMES = Times('Etc/GMT+5', ordered=True)


def few(s):
    """fewer than three rows: no frequency can be inferred"""
    return not is_sym() and len(s) < 3


def hours_before(s):
    """hours since the row before"""
    u = unix(s.index)
    return (u - prev(u))/3600


def townsend_value(now, before, rh, ta, g, tilt, slant, edge, factor, repose,
                   front):
    sw = before/3 + now*2/3
    c = np.cos(np.deg2rad(tilt))
    gamma = slant*39.37*sw*c/np.maximum((edge*39.37)**2 - sw**2, .1)*2 * \
        np.tan(np.deg2rad(repose))
    loss = 5.7e4*sw*c**2*(1 - .51*np.exp(-gamma))*rh/100/(
        ta + 273.15)**2/(g/1000)**.67*factor
    return np.minimum(np.maximum(loss*front, 0), 1)


@lemma('C21', SN_ + 'loss_townsend', rows=True, args=dict(
    total=E(0, 120, ge=0), events=E(0, 12, ge=0, sp=[0, 1, .5]),
    rh=E(10, 100), ta=E(-20, 15, gt=-270), g=E(2e4, 2e5, gt=0),
    tilt=P(0, 80), slant=P(1, 6), edge=P(.1, 3),
    opts=Opt({}, dict(string_factor=.75), dict(
        string_factor=.75, angle_of_repose=30., front_side_fraction=.9))),
    kinds=('array', 'series'))
def townsend_month(total, events, rh, ta, g, tilt, slant, edge, opts):
    got = pv.snow.loss_townsend(total, events, tilt, rh, ta, g, slant, edge,
                                **opts)
    o = dict(dict(string_factor=1., angle_of_repose=40.,
                  front_side_fraction=1.), **opts)
    n = np.where(events > 0, .5*total/2.54*(1 + 1/np.maximum(events, 1)), 0)
    # the month before; for the first one the last
    yield 'loss', eq(np.asarray(got), np.asarray(townsend_value(
        n, np.roll(n, 1), rh, ta, g, tilt, slant, edge, o['string_factor'],
        o['angle_of_repose'], o['front_side_fraction'])))


# -------------------------------------------------------------------- snow
SNOW = dict(times=TIMES, snow=E(0, 12, nan=False, ge=0, sp=[0]))


def infer(times):
    """regular step in hours, or None"""
    f = pd.infer_freq(times)
    return None if f is None else pd.Timedelta(
        pd.tseries.frequencies.to_offset(f))/pd.Timedelta('1h')


def fresh_snow(snow, depth, least=1., deep=1.):
    """hourly rate above the threshold, with enough snow on the ground"""
    step = infer(snow.index)
    dt = hours_before(snow)
    rate = np.where(first(snow), 0. if step is None else snow/step, snow/dt)
    new = pd.Series(rate, index=snow.index) > least
    return new if depth is None else new & (depth >= deep)


@lemma('C21', SN_ + 'fully_covered_nrel', rows=True, kinds=('series',),
       args=dict(SNOW, depth=Opt(None, E(0, 5)), opts=Opt({}, dict(
           threshold_snowfall=.4, threshold_depth=2.5))))
def new_snow(times, snow, depth, opts):
    if few(snow):
        return
    got = pv.snow.fully_covered_nrel(snow, depth, **opts)
    o = dict(dict(threshold_snowfall=1., threshold_depth=1.), **opts)
    yield 'covered', iff(got, fresh_snow(snow, depth, o['threshold_snowfall'],
                                         o['threshold_depth']))


@lemma('C21', SN_ + 'coverage_nrel', rows=True, kinds=('series',), args=dict(
    SNOW, poa=E(0, 900, nan=False), temp=E(-12, 8, nan=False), tilt=P(0, 90, ge=0, le=90),
    depth=Opt(None, E(0, 5, nan=False, sp=[1., 2.5])), opts=Opt({}, dict(
        initial_coverage=1.), dict(
            initial_coverage=.4, threshold_snowfall=.4, threshold_depth=2.5,
            can_slide_coefficient=-60., slide_amount_coefficient=.05))))
def covered_share(times, snow, poa, temp, tilt, depth, opts):
    o = dict(dict(initial_coverage=0, threshold_depth=1.,
                  threshold_snowfall=1., can_slide_coefficient=-80.,
                  slide_amount_coefficient=.197), **opts)
    if few(snow):
        return
    got = pv.snow.coverage_nrel(snow, poa, temp, tilt, depth, **opts)
    new = fresh_snow(snow, depth, o['threshold_snowfall'],
                     o['threshold_depth'])
    slide = np.where(temp > poa/o['can_slide_coefficient'],
                     o['slide_amount_coefficient']*np.sin(np.deg2rad(tilt)) *
                     hours_before(snow), 0)
    slide = np.where(first(snow), 0, slide)
    bare = None if depth is None else depth < o['threshold_depth']
    was = np.where(first(snow), o['initial_coverage'], prev(got))
    left = was - slide
    if bare is not None:
        left = np.where(bare, was - 1, left)
    want = np.where(new, 1., np.maximum(left, 0))
    yield 'coverage', eq(np.asarray(got), np.asarray(want))


# ----------------------------------------------------------------- soiling
def erfinv(z):
    if is_sym():
        from pvc import spshim
        return spshim.erfinv(z)
    from scipy.special import erfinv as f
    return f(z)


def erf(z):
    if is_sym():
        from pvc import spshim
        return spshim.erf(z)
    from scipy.special import erf as f
    return f(z)


def mass_of(ratio):
    """accumulated mass from the soiling ratio"""
    return (erfinv((1 - ratio)/.3437)/.17)**(1/.8473)


@lemma('C21', SO_ + 'hsu', rows=True, kinds=('series',), args=dict(
    times=TIMES, rain=E(0, 30, nan=False, ge=0), pm25=E(1e-7, 1e-6, nan=False, ge=0),
    pm10=E(1e-7, 2e-6, nan=False, ge=0), tilt=P(0, 80, ge=0, le=90),
    threshold=P(.5, 20, gt=0), veloc=Opt(None, {'2_5': .0007, '10': .0011}),
    period=Opt(None, '6h')))
def washed_mass(times, rain, pm25, pm10, tilt, threshold, veloc, period):
    if few(rain):
        return
    k = {} if veloc is None else dict(depo_veloc=dict(veloc))
    w = pd.Timedelta('1h')
    if period is not None:
        w = k['rain_accum_period'] = pd.Timedelta(period)
    got = pv.soiling.hsu(rain, threshold, tilt, pm25, pm10, **k)
    v = veloc or {'2_5': .0009, '10': .004}
    u = unix(rain.index)
    # the first row is given the time step of the second
    dt = np.where(first(rain), row(u, 1) - row(u, 0), u - prev(u))
    gain = (pm25*v['2_5'] + np.maximum(pm10 - pm25, 0)*v['10'])*dt*np.cos(
        np.deg2rad(tilt))
    wet = rain.rolling(w, closed='right').sum() >= threshold
    was = np.where(first(rain), 0, prev(mass_of(got)))
    want = np.where(wet, 0, was + gain)
    yield 'mass', implies(was >= 0, both(
        isfinite(got), eq(np.asarray(mass_of(got)), np.asarray(want),
                          1e-6, 1e-9)))
    yield 'ratio', eq(np.asarray(got), np.asarray(1 - .3437*erf(
        .17*mass_of(got)**.8473)))


@lemma('C21', SO_ + 'kimber', rows=True, kinds=('series',), args=dict(
    times=TIMES, rain=E(0, 30, nan=False, ge=0), threshold=P(.5, 20, gt=0),
    rate=P(1e-4, .02, ge=0), most=P(.01, .5, ge=0), start=P(0, .2, ge=0),
    opts=Opt({}, dict(grace_period=3), dict(grace_period=7,
                                            rain_accum_period=72))))
def washed_share(times, rain, threshold, rate, most, start, opts):
    if few(rain):
        return
    got = pv.soiling.kimber(rain, threshold, rate, max_soiling=most,
                            initial_soiling=start, **opts)
    o = dict(dict(grace_period=14, rain_accum_period=24), **opts)
    u = unix(rain.index)
    gain = rate*(row(u, 1) - row(u, 0))/86400
    event = rain.rolling(datetime.timedelta(hours=o['rain_accum_period']),
                         closed='right').sum() > threshold
    clean = event.rolling(datetime.timedelta(days=o['grace_period']),
                          closed='right').sum() > 0
    was = np.where(first(rain), start, prev(got) + gain)
    yield 'loss', eq(np.asarray(got), np.asarray(np.minimum(
        np.where(clean, 0, was), most)))
