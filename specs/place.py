"""Location hands its own coordinates to the models (C17)."""
from pvc.api import *
import numpy as np
import pandas as pd

L_ = 'pvlib.location.'
SOL = ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation',
       'azimuth', 'equation_of_time')
IRR = ('ghi', 'dni', 'dhi')


def u(path, *a, **k):
    return {path: ufn(path, *a, **k)}


STUB = dict(
    u('pvlib.solarposition.get_solarposition', SOL, form='frame'),
    **u('pvlib.atmosphere.get_relative_airmass'),
    **u('pvlib.atmosphere.get_absolute_airmass'),
    **u('pvlib.irradiance.get_extra_radiation'),
    **u('pvlib.clearsky.ineichen', IRR, form='frame'),
    **u('pvlib.clearsky.simplified_solis', IRR, form='frame'),
    **u('pvlib.clearsky.haurwitz', ('ghi',), form='frame'))
PAR = dict(lat=P(-60, 60), lon=P(-180, 180), alt=P(-420, 3000))
APP = ('simple', 'kasten1966', 'kastenyoung1989', 'gueymard1993',
       'pickering2002')
TRUE = ('youngirvine1967', 'young1994')


def loc(lat, lon, alt, **k):
    return pv.location.Location(lat, lon, altitude=alt, **k)


def position(lat, lon, alt, times, **k):
    k.setdefault('pressure', pv.atmosphere.alt2pres(alt))
    k.setdefault('temperature', 12)
    return pv.solarposition.get_solarposition(
        times, latitude=lat, longitude=lon, altitude=alt, **k)


@lemma('C17', L_ + 'Location.get_solarposition', args=dict(
    times=Times('Etc/GMT+7'), **PAR, p=Opt(None, P(6e4, 1.1e5)),
    t=Opt(None, P(-20, 50)), m=Opt(None, 'nrel_numpy', 'ephemeris')),
    kinds=('series',), symstubs=STUB, nconc=15)
def get_solarposition(times, lat, lon, alt, p, t, m):
    k = {n: v for n, v in (('pressure', p), ('temperature', t),
                           ('method', m)) if v is not None}
    yield 'position', same(loc(lat, lon, alt).get_solarposition(times, **k),
                           position(lat, lon, alt, times, **k))


@lemma('C17', L_ + 'Location.get_airmass', args=dict(
    times=Times('Etc/GMT+7'), **PAR, model=Opt(None, *APP, *TRUE),
    sp=Opt(None, Dct('frame', apparent_zenith=E(0, 120), zenith=E(0, 120)))),
    kinds=('series',), symstubs=STUB, nconc=15)
def get_airmass(times, lat, lon, alt, model, sp):
    k = {} if model is None else dict(model=model)
    if sp is None:
        got = loc(lat, lon, alt).get_airmass(times, **k)
        sp = position(lat, lon, alt, times)
    else:
        got = loc(lat, lon, alt).get_airmass(solar_position=sp, **k)
    model = model or 'kastenyoung1989'
    rel = pv.atmosphere.get_relative_airmass(
        sp['apparent_zenith' if model in APP else 'zenith'], model)
    ab = pv.atmosphere.get_absolute_airmass(rel, pv.atmosphere.alt2pres(alt))
    yield 'relative', same(got['airmass_relative'], rel, types=False)
    yield 'absolute', same(got['airmass_absolute'], ab, types=False)
    yield 'columns', list(got.columns) == ['airmass_relative',
                                           'airmass_absolute']
    yield 'index', same(got.index, times)
    yield 'unknown model', raises(ValueError, loc(lat, lon, alt).get_airmass,
                                  times, None, 'no such model')


@lemma('C17', L_ + 'Location.get_clearsky', args=dict(
    times=Times('Etc/GMT+7'), **PAR, p=Opt(None, P(6e4, 1.1e5)),
    sp=Opt(None, Dct('frame', apparent_zenith=E(0, 120), zenith=E(0, 120),
                     apparent_elevation=E(-30, 90))),
    extra=Opt(None, E(1300, 1400)), aod=Opt(None, P(0, .4)),
    model=Opt('ineichen', 'haurwitz', 'simplified_solis'),
    am=Opt(None, E(1, 30)), tl=P(2, 5)), kinds=('series',), symstubs=STUB,
    nconc=8)
def get_clearsky(times, lat, lon, alt, p, sp, extra, aod, model, am, tl):
    k = {}
    if p is not None:
        k['pressure'] = p
    if sp is not None:
        k['solar_position'] = sp
    if extra is not None:
        k['dni_extra'] = extra
    if model == 'simplified_solis' and aod is not None:
        k['aod700'] = aod
    if model == 'ineichen':
        k['linke_turbidity'] = tl
        if am is not None:
            k['airmass_absolute'] = am
        if aod is not None:
            k['perez_enhancement'] = True
    got = loc(lat, lon, alt).get_clearsky(times, model=model, **k)
    k.pop('solar_position', None)
    pres = k.pop('pressure', pv.atmosphere.alt2pres(alt))
    if sp is None:
        sp = position(lat, lon, alt, times, pressure=pres)
    if extra is None:
        extra = pv.irradiance.get_extra_radiation(times)
    k['dni_extra'] = extra
    c = pv.clearsky
    if model == 'haurwitz':
        want = c.haurwitz(sp['apparent_zenith'])
    elif model == 'simplified_solis':
        want = c.simplified_solis(sp['apparent_elevation'], pressure=pres,
                                  **k)
    else:
        if am is None:
            a = pv.atmosphere
            k['airmass_absolute'] = a.get_absolute_airmass(
                a.get_relative_airmass(sp['apparent_zenith'],
                                       'kastenyoung1989'), a.alt2pres(alt))
        want = c.ineichen(sp['apparent_zenith'], altitude=alt, **k)
    yield 'clear sky', same(got, want)
    yield 'unknown model', raises(
        ValueError, loc(lat, lon, alt).get_clearsky, times, 'no such model',
        sp)


RST = ('sunrise', 'sunset', 'transit')


@lemma('C17', L_ + 'Location.get_sun_rise_set_transit', args=dict(
    times=Times('Etc/GMT+7'), **PAR, m=Opt('spa', 'geometric'),
    dec=E(-.4, .4), eot=E(-20, 20)), kinds=('series',), nconc=5,
    symstubs=u('pvlib.solarposition.sun_rise_set_transit_spa', RST,
               form='frame'))
def rise_set(times, lat, lon, alt, m, dec, eot):
    s = pv.solarposition
    where = loc(lat, lon, alt)
    yield 'unknown method', raises(
        ValueError, where.get_sun_rise_set_transit, times, 'no such method')
    if m == 'geometric':
        got = where.get_sun_rise_set_transit(
            times, method=m, declination=dec, equation_of_time=eot)
        want = dict(zip(RST, s.sun_rise_set_transit_geometric(
            times, lat, lon, dec, eot)))
        for n in RST:
            yield n, eq(unix(got[n]), unix(want[n]))
    else:
        got = where.get_sun_rise_set_transit(times, method=m, delta_t=66.)
        yield 'spa', same(got, s.sun_rise_set_transit_spa(
            times, lat, lon, delta_t=66.))


@lemma('C17', L_ + 'Location.__init__', args=dict(
    PAR), kinds=('scalar',), nconc=3)
def attributes(lat, lon, alt):
    p = loc(lat, lon, alt, tz='America/Phoenix', name='x')
    yield 'latitude', eq(p.latitude, lat)
    yield 'longitude', eq(p.longitude, lon)
    yield 'altitude', eq(p.altitude, alt)
    yield 'name and zone', (p.name, p.tz) == ('x', 'America/Phoenix')
    for tz, w in ((-7, 'Etc/GMT+7'), (3., 'Etc/GMT-3'), (0, 'Etc/GMT+0'),
                  ('UTC', 'UTC')):
        yield f'zone {tz}', loc(lat, lon, alt, tz=tz).tz == w or \
            tz == 0 and loc(lat, lon, alt, tz=tz).tz == 'Etc/GMT-0'
    yield 'fractional offset', raises(TypeError, loc, lat, lon, alt, tz=5.5)
    yield 'not a zone', raises(TypeError, loc, lat, lon, alt, tz=[5])
    d = dict(latitude=lat, longitude=lon, altitude=alt, TZ=-7, city='c',
             Name='n')
    q = pv.location.Location.from_epw(d)
    yield 'from_epw', q.name == 'c' and q.tz == 'Etc/GMT+7'
    yield 'from_epw latitude', eq(q.latitude, lat)
    yield 'from_epw longitude', eq(q.longitude, lon)
    yield 'from_epw altitude', eq(q.altitude, alt)
    q = pv.location.Location.from_tmy(d)
    yield 'from_tmy', q.name == 'n' and q.tz == 'Etc/GMT+7'
    yield 'from_tmy latitude', eq(q.latitude, lat)
    yield 'from_tmy longitude', eq(q.longitude, lon)
    yield 'from_tmy altitude', eq(q.altitude, alt)
    yield 'from_tmy, TMY2', pv.location.Location.from_tmy(
        dict(d, City='t2')).name == 't2'


@lemma('C17', 'pvlib.tools._degrees_to_index', args=dict(
    deg=P(-190, 190, sp=[90, -90, 180, -180, 0, 180.01, -90.001]),
    coord=Opt('latitude', 'longitude')), kinds=('scalar',), nconc=60)
def degrees_to_index(deg, coord):
    """the grid cell the coordinate lies in (grids of 1/12 degree)"""
    lo, hi, n = (90, -90, 2160) if coord == 'latitude' else (-180, 180, 4320)
    f = pv.tools._degrees_to_index
    r = outcome(lambda: f(deg, coord))
    p = (deg - lo)/(hi - lo)*n
    if isinstance(r, Raised):
        yield 'refused only out of range', either(lt(p, 0), lt(n, p))
        return
    yield 'within the grid', between(r, 0, n - 1)
    yield 'its cell', both(le(r, p + 1e-5), le(p - 1 - 1e-5, r))
    yield 'unknown coordinate', raises(ValueError, f, deg, 'altitude')


# ----------------------------------------------------------------- trigonometry
ANG = dict(angle=E(-400, 400, sp=[0, 30, 90, 180, -90]))
NUM = dict(number=E(-1, 1, sp=[0, .5, 1, -1]))


@contract('pvlib.tools.cosd', prop='C17', args=ANG)
def cosd(angle):
    return np.cos(angle*np.pi/180)


@contract('pvlib.tools.sind', prop='C17', args=ANG)
def sind(angle):
    return np.sin(angle*np.pi/180)


@contract('pvlib.tools.tand', prop='C17', args=ANG)
def tand(angle):
    return np.tan(angle*np.pi/180)


@contract('pvlib.tools.asind', prop='C17', args=NUM)
def asind(number):
    return np.arcsin(number)*180/np.pi


@contract('pvlib.tools.acosd', prop='C17', args=NUM)
def acosd(number):
    return np.arccos(number)*180/np.pi


@contract('pvlib.tools.atand', prop='C17', args=NUM)
def atand(number):
    return np.arctan(number)*180/np.pi
