"""The Sandia ephemeris (method='ephemeris') and its zone independence (C14).

Kepler's equation is solved by the code to 1e-4 degrees for the worst row of
the whole array, so the contract is a bounded one with that tolerance."""
from pvc.api import *
import os
import tempfile
import h5py
import numpy as np
import pandas as pd

O_ = 'pvlib.solarposition.'
ZONES = ('UTC', None, 'Etc/GMT+7', 'America/New_York', 'Asia/Kolkata')


def hughes(time, lat, lon, pressure, temperature):
    """Hughes (1985), geometry in degrees"""
    utc = time if time.tz is None else time.tz_convert('UTC')
    sec = (utc.tz_localize(None) if utc.tz is not None else utc)
    d0 = sec.normalize()
    hours = np.asarray((sec - d0).total_seconds())/3600
    year = np.asarray(sec.year)
    doy = np.asarray(sec.dayofyear)
    n = year - 1900
    start = 365*n + np.floor((n - 1)/4) - .5 + doy
    c0 = start/36525
    gmst = (6 + 38/60 + (45.836 + 8640184.542*c0 + .0929*c0**2)/3600)/24
    gmst = gmst % 1 * 360
    last = gmst + 360*1.0027379093*hours/24 + lon
    e = start + hours/24
    c = e/36525
    obl = np.radians(23.452294 - .0130125*c - 1.64e-6*c**2 + 5.03e-7*c**3)
    peri = 281.22083 + 4.70684e-5*e + .000453*c**2 + 3e-6*c**3
    mean = np.radians((358.47583 + .985600267*e - .00015*c**2
                       - 3e-6*c**3) % 360)
    ecc = .01675104 - 4.18e-5*c - 1.26e-7*c**2
    ea = mean.copy()
    for _ in range(30):
        ea = mean + ecc*np.sin(ea)
    nu = 2*np.degrees(np.arctan(np.sqrt((1 + ecc)/(1 - ecc))*np.tan(ea/2)))
    lam = np.radians(peri + nu - 20/3600)
    dec = np.arcsin(np.sin(obl)*np.sin(lam))
    ra = np.degrees(np.arctan2(np.cos(obl)*np.sin(lam), np.cos(lam)))
    ha = (last - ra + 180) % 360 - 180
    h, p = np.radians(ha), np.radians(lat)
    az = np.degrees(np.arctan2(-np.sin(h), np.cos(p)*np.tan(dec)
                               - np.sin(p)*np.cos(h))) % 360
    el = np.degrees(np.arcsin(np.cos(p)*np.cos(dec)*np.cos(h)
                              + np.sin(p)*np.sin(dec)))
    t = np.tan(np.radians(el))
    with np.errstate(all='ignore'):
        r = np.select(
            [el > 85, el > 5, el > -.575, el > -1],
            [0, 58.1/t - .07/t**3 + 8.6e-5/t**5,
             1735 + el*(-518.2 + el*(103.4 + el*(-12.79 + el*.711))),
             -20.774/t], 0)
    r = r*(283/(273 + temperature))*(pressure/101325)/3600
    return dict(elevation=el, zenith=90 - el, apparent_elevation=el + r,
                apparent_zenith=90 - el - r, azimuth=az,
                solar_time=(180 + ha)/15)


def turn(a, b, full):
    """distance of two angles (or clock times) on the circle"""
    d = np.abs(np.asarray(a) - np.asarray(b)) % full
    return np.minimum(d, full - d)


@lemma('C14', O_ + 'ephemeris', bounded=True, args=dict(
    time=Opt(*[Times(z) for z in ZONES]), latitude=P(-66, 66),
    longitude=P(-180, 180), pressure=E(6e4, 1.1e5, nan=False),
    temperature=E(-30, 45, nan=False)), kinds=('array', 'series'), nconc=400)
def ephemeris(time, latitude, longitude, pressure, temperature):
    f = pv.solarposition.ephemeris
    got = f(time, latitude, longitude, pressure, temperature)
    w = hughes(time, latitude, longitude, np.asarray(pressure),
               np.asarray(temperature))
    yield 'index', got.index.equals(time)
    yield 'columns', sorted(got) == sorted(w)
    el = w['elevation']
    # not at the steps of the refraction formula
    clear = np.min([np.abs(el - e) for e in (-1, -.575, 5, 85)],
                   axis=0) > 1e-3
    for n in ('elevation', 'zenith'):
        yield n, le(np.abs(got[n].values - w[n]), 1e-4)
    for n in ('apparent_elevation', 'apparent_zenith'):
        yield n, le(np.abs(got[n].values - w[n])[clear], 1e-4)
    high = el < 89
    yield 'azimuth', le(turn(got['azimuth'], w['azimuth'], 360)[high], 1e-2)
    yield 'azimuth range', bool(((got['azimuth'] >= 0)
                                 & (got['azimuth'] <= 360)).all())
    yield 'solar time', le(turn(got['solar_time'], w['solar_time'], 24), 1e-4)


@lemma('C14', O_ + 'ephemeris', bounded=True, args=dict(
    time=Times('UTC', step=60), latitude=P(-66, 66),
    longitude=P(-180, 180)), kinds=('array',), nconc=200)
def ephemeris_defaults(time, latitude, longitude):
    f = pv.solarposition.ephemeris
    a = f(time, latitude, longitude)
    b = f(time, latitude, longitude, 101325., 12.)
    yield 'defaults', eq(a.values, b.values)
    # the zone is immaterial, naive stamps are UTC
    for z in ZONES[1:]:
        c = f(time.tz_convert(z) if z else time.tz_localize(None), latitude,
              longitude)
        yield f'instants in {z}', eq(c.values, a.values)
    # within 0.05 degrees of the high-accuracy algorithm (1990-2035)
    s = pv.solarposition.spa_python(time, latitude, longitude)
    yield 'agrees with the SPA', le(np.abs(
        s['elevation'].values - a['elevation'].values), .05)


# ----------------------------------------------------- dates and julian days
@lemma('C14', 'pvlib.tools.datetime_to_djd', bounded=True, args=dict(
    time=Opt(*[Times(z) for z in ('UTC', None, 'Etc/GMT+7',
                                  'Asia/Kolkata')])), kinds=('array',),
    nconc=40)
def djd(time):
    for s in time[:10]:
        d = s.to_pydatetime()
        v = pv.tools.datetime_to_djd(d)
        u = s.tz_localize('UTC') if s.tz is None else s.tz_convert('UTC')
        yield 'Dublin julian day', eq(
            v, u.to_julian_date() - 2415020, atol=1e-8)
        for z in ('UTC', 'America/Denver'):
            w = pv.tools.djd_to_datetime(v, z)
            yield f'and back, {z}', abs((pd.Timestamp(w) - u)
                                        .total_seconds()) < 1e-3
            yield f'zone {z}', str(w.tzinfo) == z


@lemma('C14', 'pvlib.tools.localize_to_utc', bounded=True, args=dict(
    time=Opt(*[Times(z) for z in ('UTC', None, 'Asia/Kolkata')])),
    kinds=('array',), nconc=20)
def localize(time):
    loc = pv.location.Location(35., -106., tz='Etc/GMT+7')
    f = pv.tools.localize_to_utc
    want = (time.tz_localize('Etc/GMT+7') if time.tz is None else time
            ).tz_convert('UTC')
    yield 'index', f(time, loc).equals(want)
    for s, w in list(zip(time, want))[:5]:
        got = f(s.to_pydatetime(), loc)
        yield 'datetime', pd.Timestamp(got) == w
        yield 'is UTC', got.utcoffset().total_seconds() == 0
    ser = pd.Series(1.0, index=time)
    yield 'series', f(ser, loc).index.equals(want)


# ------------------------------------------------------ PyEphem (if present)
EPH = dict(latitude=P(-58, 58), longitude=P(-180, 180))


@lemma('C14', O_ + 'pyephem', bounded=True, args=dict(
    EPH, time=Opt(*[Times(z) for z in ZONES[:3]]), altitude=P(0, 3000),
    pressure=P(7e4, 1.05e5), temperature=P(-20, 40)), kinds=('array',),
    nconc=60)
def pyephem(time, latitude, longitude, altitude, pressure, temperature):
    f = pv.solarposition.pyephem
    time = time[:40]
    got = f(time, latitude, longitude, altitude, pressure, temperature)
    s = pv.solarposition.spa_python(
        time, latitude, longitude, altitude, pressure, temperature)
    yield 'index', got.index.equals(time)
    up = s['elevation'].values < 85
    yield 'elevation', le(np.abs(got['elevation'].values
                                 - s['elevation'].values), .02)
    yield 'azimuth', le(turn(got['azimuth'], s['azimuth'], 360)[up], .15)
    yield 'apparent azimuth', le(turn(got['apparent_azimuth'], s['azimuth'],
                                      360)[up], .15)
    day = s['elevation'].values > 2
    yield 'refraction', le(np.abs(
        (got['apparent_elevation'] - got['elevation']).values
        - (s['apparent_elevation'] - s['elevation']).values)[day], .02)
    for n in ('', 'apparent_'):
        yield n + 'zenith', eq(got[n + 'zenith'].values,
                               90 - got[n + 'elevation'].values)
    if time.tz is not None:
        z = f(time.tz_convert('Asia/Kolkata'), latitude, longitude, altitude,
              pressure, temperature)
        yield 'instants in another zone', eq(z.values, got.values)


@lemma('C14', O_ + 'get_solarposition', bounded=True, args=dict(
    EPH, seed=P(0, 1e6), altitude=Opt(None, P(0, 3000)),
    pressure=Opt(None, P(7e4, 1.05e5)), temperature=P(-20, 40),
    form=Opt('datetime', 'Timestamp', 'local', 'list'),
    method=Opt('nrel_numpy', 'pyephem', 'ephemeris')),
    kinds=('scalar',), nconc=3)
def one_time(latitude, longitude, seed, altitude, pressure, temperature,
             form, method):
    m, k = pv.solarposition, {}
    t = pd.Timestamp('2021-01-01') + pd.Timedelta(int(seed*60) % 31536000, 's')
    if form == 'local':
        t = t.tz_localize('America/Denver', ambiguous=True,
                          nonexistent='shift_forward')
    if altitude is not None:
        k['altitude'] = altitude
    if pressure is not None:
        k['pressure'] = pressure
    x = pd.DatetimeIndex([t])
    want = m.get_solarposition(x, latitude, longitude, method=method,
                               temperature=temperature, **k)
    if form != 'list':
        got = m.get_solarposition(
            t.to_pydatetime() if form == 'datetime' else t, latitude,
            longitude, method=method, temperature=temperature, **k)
        yield 'one time is an index of one', (
            list(got.index) == [t] and same(got, want, types=False))
    alt, p = altitude, pressure
    if p is None:
        p = 101325. if alt is None else 100*((44331.514 - alt)/11880.516)**(
            1/0.1902632)
    if alt is None:
        alt = 44331.5 - 4946.62*pressure**0.190263 if pressure is not None \
            else 0.
    a = (x, latitude, longitude)
    if method == 'pyephem':
        yield 'PyEphem', same(want, m.pyephem(
            *a, altitude=alt, pressure=p, temperature=temperature))
    elif method == 'ephemeris':
        yield 'ephemeris', same(want, m.ephemeris(*a, p, temperature))
    else:
        yield 'SPA', same(want, m.spa_python(*a, alt, p, temperature))
        one = [t] if form == 'list' else \
            t.to_pydatetime() if form == 'datetime' else t
        yield 'SPA of one time', same(m.spa_python(
            one, latitude, longitude, alt, p, temperature), want, types=False)
        yield 'distance', same(m.nrel_earthsun_distance(one),
                               m.nrel_earthsun_distance(x), types=False)


@lemma('C14', O_ + 'sun_rise_set_transit_ephem', bounded=True, args=dict(
    EPH, times=Opt(*[Times(z) for z in ('UTC', 'America/New_York')]),
    pressure=P(9e4, 1.05e5), temperature=P(-10, 30), horizon=Opt(
        '0:00', '5')), kinds=('array',), nconc=12)
def rise_set_ephem(times, latitude, longitude, pressure, temperature,
                   horizon):
    m = pv.solarposition
    times = times[:6]
    h = 5. if horizon == '5' else 0.
    day = pd.Timedelta('25h')
    for way, sign in (('next', 1), ('previous', -1)):
        got = m.sun_rise_set_transit_ephem(
            times, latitude, longitude, way, 0., pressure, temperature,
            horizon)
        yield way + ' index', got.index.equals(times)
        for n in ('sunrise', 'sunset', 'transit'):
            c = pd.DatetimeIndex(got[n])
            yield f'{way} {n} zone', str(c.tz) == str(times.tz)
            d = (c - times)*sign
            yield f'{way} {n}', bool(((d >= pd.Timedelta('-1s'))
                                      & (d < day)).all())
            u = c.tz_convert('UTC')
            e = m.pyephem(u, latitude, longitude, 0., pressure, temperature)
            if n == 'transit':
                a = e['azimuth'].values % 180
                yield f'{way} {n} is on the meridian', le(np.minimum(
                    a, 180 - a)[e['elevation'].values < 80], .1)
            else:
                # the upper limb is at the horizon
                yield f'{way} {n} is at the horizon', le(np.abs(
                    e['apparent_elevation'].values + .267 - h), .03)
                west = e['azimuth'].values > 180
                yield f'{way} {n} side', bool(
                    (west == (n == 'sunset')).all())
    yield 'naive times are refused', raises(
        ValueError, m.sun_rise_set_transit_ephem, times.tz_localize(None),
        latitude, longitude)
    yield 'unknown direction is refused', raises(
        ValueError, m.sun_rise_set_transit_ephem, times, latitude, longitude,
        'nearest')


@lemma('C14', O_ + 'calc_time', bounded=True, args=dict(
    time=Times('UTC'), latitude=P(-40, 40), longitude=P(-170, 170),
    pressure=P(8e4, 1.05e5), temperature=P(-10, 30),
    attribute=Opt('alt', 'az'), part=P(.2, .8)), kinds=('array',), nconc=12)
def calc_time(time, latitude, longitude, pressure, temperature, attribute,
              part):
    m = pv.solarposition
    col = dict(alt='apparent_elevation', az='apparent_azimuth')[attribute]
    for s in time[:5]:
        noon = s.normalize() + pd.Timedelta(hours=12 - longitude/15)
        lo = (noon - pd.Timedelta('5h')).to_pydatetime()
        hi = (noon - pd.Timedelta('2h')).to_pydatetime()
        k = (latitude, longitude, 0., pressure, temperature)
        e = m.pyephem(pd.DatetimeIndex([lo, hi]), *k)[col].values
        if abs(e[1] - e[0]) > 180 or abs(e[1] - e[0]) < 1:
            continue
        v = np.radians(e[0] + part*(e[1] - e[0]))
        got = m.calc_time(lo, hi, *k[:2], attribute, v, 0., pressure,
                          temperature)
        yield 'between the bounds', lo <= got <= hi
        w = m.pyephem(pd.DatetimeIndex([got]), *k)[col].values
        yield 'the sun is where it was asked for', le(
            np.abs(np.radians(w) - v), 1e-6)


@lemma('C14', O_ + 'pyephem_earthsun_distance', bounded=True, args=dict(
    time=Opt(*[Times(z) for z in ZONES[:3]])), kinds=('array',), nconc=40)
def distance(time):
    m = pv.solarposition
    got = m.pyephem_earthsun_distance(time)
    yield 'index', got.index.equals(time)
    yield 'agrees with the SPA', le(np.abs(
        got.values - m.nrel_earthsun_distance(time).values), 1e-4)


# ------------------------------------------------------- gridded climate data
def grid(lat, lon, n):
    """nearest cell of a grid from the north-west corner"""
    i = int(round((90 - 90/n - lat)/(180/n)))
    j = int(round((lon + 180 - 90/n)/(180/n)))
    return min(max(i, 0), n - 1), min(max(j, 0), 2*n - 1)


def cell(name, data, lat, lon):
    p = os.path.join(os.path.dirname(pv.__file__), 'data', name)
    with h5py.File(p, 'r') as f:
        n = f[data].shape[0]
        i, j = grid(lat, lon, n)
        return np.array(f[data][i, j], float)


def inner(lat, lon, n):
    """not within a hundredth of a cell of a border of cells"""
    a = ((90 - lat)/(180/n)) % 1
    b = ((lon + 180)/(180/n)) % 1
    return .01 < a < .99 and .01 < b < .99


@lemma('C13', 'pvlib.clearsky.lookup_linke_turbidity', bounded=True,
       args=dict(time=Opt(*[Times(z) for z in (
           'UTC', None, 'Etc/GMT+7', 'Asia/Kolkata')]), latitude=P(-89, 89),
           longitude=P(-179, 179), interp=Opt(True, False)),
       kinds=('array',), nconc=60)
def linke(time, latitude, longitude, interp):
    if not inner(latitude, longitude, 2160):
        return
    # a file of the documented layout in which the nine cells around the
    # coordinate differ (the shipped file is not needed)
    i, j = grid(latitude, longitude, 2160)
    rng = np.random.default_rng(i*4320 + j)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, 'tl.h5')
        with h5py.File(path, 'w') as f:
            d = f.create_dataset('LinkeTurbidity', (2160, 4320, 12), 'u1',
                                 chunks=(8, 8, 12), fillvalue=3)
            a, b = max(i - 1, 0), max(j - 1, 0)
            d[a:i + 2, b:j + 2] = rng.integers(
                20, 140, d[a:i + 2, b:j + 2].shape)
            m = np.array(d[i, j], float)/20
        got = pv.clearsky.lookup_linke_turbidity(
            time, latitude, longitude, filepath=path,
            interp_turbidity=interp)
    u = time if time.tz is None else time.tz_convert('UTC')
    if interp:
        out = []
        for s in u:
            leap = s.is_leap_year
            md = np.array([31, 28 + leap, 31, 30, 31, 30, 31, 31, 30, 31, 30,
                           31])
            mid = np.cumsum(md) - md/2
            mid = np.concatenate([[-15.5], mid, [365 + leap + 15.5]])
            out.append(np.interp(s.dayofyear, mid,
                                 np.concatenate([m[-1:], m, m[:1]])))
        w = np.array(out)
    else:
        w = m[np.asarray(u.month) - 1]
    yield 'turbidity', eq(got.values, w)
    yield 'index', got.index.equals(time)


@lemma('C17', 'pvlib.location.lookup_altitude', bounded=True, args=dict(
    latitude=P(-89, 89), longitude=P(-179, 179)), kinds=('scalar',),
    nconc=400)
def altitude(latitude, longitude):
    if not inner(latitude, longitude, 2160):
        return
    v = cell('Altitude.h5', 'Altitude', latitude, longitude)
    got = pv.location.lookup_altitude(latitude, longitude)
    yield 'altitude', eq(got, 0. if v == 255 else 28*float(v) - 450)
