"""Solar position: the NREL SPA algorithm (Reda and Andreas), function by
function, and its composition (C14)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd

S_ = 'pvlib.spa.'
AS = ('array', 'scalar')
T = table('spa')
DEG = E(-360, 720)
LAT = P(-90, 90, sp=[0, 90, -90])
LON = P(-180, 180)
JCE = E(-1, 1.5, sp=[0])
JME = E(-0.1, 0.15, sp=[0])


def fn(name, kinds=AS, **args):
    return contract(S_ + name, prop='C14', args=args, kinds=kinds)


def sind(v):
    return np.sin(np.radians(v))


def cosd(v):
    return np.cos(np.radians(v))


def tand(v):
    return np.tan(np.radians(v))


# ---------------------------------------------------------------- time scales
@fn('julian_day', unixtime=E(-2e9, 4e9))
def julian_day(unixtime):
    return 2440587.5 + unixtime/86400


@fn('julian_ephemeris_day', julian_day=E(2.3e6, 2.6e6), delta_t=E(-10, 200))
def julian_ephemeris_day(julian_day, delta_t):
    return julian_day + delta_t/86400


@fn('julian_century', julian_day=E(2.3e6, 2.6e6))
def julian_century(julian_day):
    return (julian_day - 2451545)/36525


@fn('julian_ephemeris_century', julian_ephemeris_day=E(2.3e6, 2.6e6))
def julian_ephemeris_century(julian_ephemeris_day):
    return (julian_ephemeris_day - 2451545)/36525


@fn('julian_ephemeris_millennium', julian_ephemeris_century=JCE)
def julian_ephemeris_millennium(julian_ephemeris_century):
    return julian_ephemeris_century/10


# ------------------------------------------------- earth heliocentric position
def series(name, x):
    return sum(a*np.cos(b + c*x) for a, b, c in T[name])


def poly(names, x):
    return sum(series(n, x)*x**i for i, n in enumerate(names))/10**8


@fn('heliocentric_longitude', jme=JME)
def heliocentric_longitude(jme):
    return np.degrees(poly(['L0', 'L1', 'L2', 'L3', 'L4', 'L5'], jme)) % 360


@fn('heliocentric_latitude', jme=JME)
def heliocentric_latitude(jme):
    return np.degrees(poly(['B0', 'B1'], jme))


@fn('heliocentric_radius_vector', jme=JME)
def heliocentric_radius_vector(jme):
    return poly(['R0', 'R1', 'R2', 'R3', 'R4'], jme)


@fn('geocentric_longitude', heliocentric_longitude=DEG)
def geocentric_longitude(heliocentric_longitude):
    return (heliocentric_longitude + 180) % 360


@fn('geocentric_latitude', heliocentric_latitude=E(-1, 1))
def geocentric_latitude(heliocentric_latitude):
    return -heliocentric_latitude


# ------------------------------------------------------------------- nutation
def cubic(a, b, c, d):
    return lambda julian_ephemeris_century: (
        a + b*julian_ephemeris_century + c*julian_ephemeris_century**2
        + julian_ephemeris_century**3/d)


for _n, _p in dict(
        mean_elongation=(297.85036, 445267.111480, -0.0019142, 189474),
        mean_anomaly_sun=(357.52772, 35999.050340, -0.0001603, -300000),
        mean_anomaly_moon=(134.96298, 477198.867398, 0.0086972, 56250),
        moon_argument_latitude=(93.27191, 483202.017538, -0.0036825, 327270),
        moon_ascending_longitude=(125.04452, -1934.136261, 0.0020708,
                                  450000)).items():
    fn(_n, julian_ephemeris_century=JCE)(cubic(*_p))


def nutation(jce, x):
    psi = eps = 0
    for (a, b, c, d), y in zip(T['NUT'], T['Y']):
        arg = sum(xi*yi for xi, yi in zip(x, y))
        psi = psi + (a + b*jce)*sind(arg)
        eps = eps + (c + d*jce)*cosd(arg)
    return psi/36000000, eps/36000000


@lemma('C14', S_ + 'longitude_obliquity_nutation', args=dict(
    jce=JCE, **{f'x{i}': DEG for i in range(5)}), kinds=('array',))
def longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4):
    out = np.empty((2, len(x0)))
    pv.spa.longitude_obliquity_nutation(jce, x0, x1, x2, x3, x4, out)
    psi, eps = nutation(jce, (x0, x1, x2, x3, x4))
    yield 'nutation in longitude', eq(out[0], psi)
    yield 'nutation in obliquity', eq(out[1], eps)


@fn('mean_ecliptic_obliquity', julian_ephemeris_millennium=JME)
def mean_ecliptic_obliquity(julian_ephemeris_millennium):
    u = julian_ephemeris_millennium/10
    c = (84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05, 7.12,
         27.87, 5.79, 2.45)
    return sum(q*u**i for i, q in enumerate(c))


@fn('true_ecliptic_obliquity', mean_ecliptic_obliquity=E(84000, 85000),
    obliquity_nutation=E(-.01, .01))
def true_ecliptic_obliquity(mean_ecliptic_obliquity, obliquity_nutation):
    return mean_ecliptic_obliquity/3600 + obliquity_nutation


@fn('aberration_correction', earth_radius_vector=E(0.9, 1.1, gt=0))
def aberration_correction(earth_radius_vector):
    return -20.4898/3600/earth_radius_vector


@fn('apparent_sun_longitude', geocentric_longitude=DEG,
    longitude_nutation=E(-.01, .01), aberration_correction=E(-.01, 0))
def apparent_sun_longitude(geocentric_longitude, longitude_nutation,
                           aberration_correction):
    return geocentric_longitude + longitude_nutation + aberration_correction


# -------------------------------------------------------------- sidereal time
@fn('mean_sidereal_time', julian_day=E(2.3e6, 2.6e6), julian_century=JCE)
def mean_sidereal_time(julian_day, julian_century):
    jc = julian_century
    return (280.46061837 + 360.98564736629*(julian_day - 2451545)
            + 0.000387933*jc**2 - jc**3/38710000) % 360


@fn('apparent_sidereal_time', mean_sidereal_time=DEG,
    longitude_nutation=E(-.01, .01), true_ecliptic_obliquity=E(22, 25))
def apparent_sidereal_time(mean_sidereal_time, longitude_nutation,
                           true_ecliptic_obliquity):
    return mean_sidereal_time + longitude_nutation*cosd(
        true_ecliptic_obliquity)


# ------------------------------------------------------ geocentric coordinates
GEO = dict(apparent_sun_longitude=DEG, true_ecliptic_obliquity=E(22, 25),
           geocentric_latitude=E(-.01, .01, gt=-90, lt=90))


@fn('geocentric_sun_right_ascension', **GEO)
def geocentric_sun_right_ascension(apparent_sun_longitude,
                                   true_ecliptic_obliquity,
                                   geocentric_latitude):
    lam, eps, beta = (apparent_sun_longitude, true_ecliptic_obliquity,
                      geocentric_latitude)
    return np.degrees(np.arctan2(
        sind(lam)*cosd(eps) - tand(beta)*sind(eps), cosd(lam))) % 360


@fn('geocentric_sun_declination', **GEO)
def geocentric_sun_declination(apparent_sun_longitude,
                               true_ecliptic_obliquity, geocentric_latitude):
    lam, eps, beta = (apparent_sun_longitude, true_ecliptic_obliquity,
                      geocentric_latitude)
    return np.degrees(np.arcsin(
        sind(beta)*cosd(eps) + cosd(beta)*sind(eps)*sind(lam)))


@fn('local_hour_angle', apparent_sidereal_time=DEG,
    observer_longitude=E(-180, 180), sun_right_ascension=DEG)
def local_hour_angle(apparent_sidereal_time, observer_longitude,
                     sun_right_ascension):
    return (apparent_sidereal_time + observer_longitude
            - sun_right_ascension) % 360


# ------------------------------------------------------------------- parallax
@fn('equatorial_horizontal_parallax', earth_radius_vector=E(0.9, 1.1, gt=0))
def equatorial_horizontal_parallax(earth_radius_vector):
    return 8.794/3600/earth_radius_vector


@fn('uterm', observer_latitude=LAT, kinds=('scalar',))
def uterm(observer_latitude):
    return np.arctan(0.99664719*tand(observer_latitude))


UV = dict(u=E(-1.6, 1.6), observer_latitude=LAT,
          observer_elevation=E(-400, 9000))


@fn('xterm', **UV)
def xterm(u, observer_latitude, observer_elevation):
    return np.cos(u) + observer_elevation/6378140*cosd(observer_latitude)


@fn('yterm', **UV)
def yterm(u, observer_latitude, observer_elevation):
    return (0.99664719*np.sin(u)
            + observer_elevation/6378140*sind(observer_latitude))


@fn('parallax_sun_right_ascension', xterm=E(0, 1.1),
    equatorial_horizontal_parallax=E(0, .003), local_hour_angle=DEG,
    geocentric_sun_declination=E(-24, 24))
def parallax_sun_right_ascension(xterm, equatorial_horizontal_parallax,
                                 local_hour_angle,
                                 geocentric_sun_declination):
    q = xterm*sind(equatorial_horizontal_parallax)
    return np.degrees(np.arctan2(
        -q*sind(local_hour_angle),
        cosd(geocentric_sun_declination) - q*cosd(local_hour_angle)))


@fn('topocentric_sun_right_ascension', geocentric_sun_right_ascension=DEG,
    parallax_sun_right_ascension=E(-.1, .1))
def topocentric_sun_right_ascension(geocentric_sun_right_ascension,
                                    parallax_sun_right_ascension):
    return geocentric_sun_right_ascension + parallax_sun_right_ascension


@fn('topocentric_sun_declination', geocentric_sun_declination=E(-24, 24),
    xterm=E(0, 1.1), yterm=E(-1.1, 1.1),
    equatorial_horizontal_parallax=E(0, .003),
    parallax_sun_right_ascension=E(-.1, .1), local_hour_angle=DEG)
def topocentric_sun_declination(
        geocentric_sun_declination, xterm, yterm,
        equatorial_horizontal_parallax, parallax_sun_right_ascension,
        local_hour_angle):
    d, s = geocentric_sun_declination, sind(equatorial_horizontal_parallax)
    return np.degrees(np.arctan2(
        (sind(d) - yterm*s)*cosd(parallax_sun_right_ascension),
        cosd(d) - xterm*s*cosd(local_hour_angle)))


@fn('topocentric_local_hour_angle', local_hour_angle=DEG,
    parallax_sun_right_ascension=E(-.1, .1))
def topocentric_local_hour_angle(local_hour_angle,
                                 parallax_sun_right_ascension):
    return local_hour_angle - parallax_sun_right_ascension


# ---------------------------------------------------------- zenith and azimuth
HOR = dict(observer_latitude=LAT, topocentric_sun_declination=E(-24, 24),
           topocentric_local_hour_angle=DEG)


@fn('topocentric_elevation_angle_without_atmosphere', **HOR)
def elevation_without_atmosphere(
        observer_latitude, topocentric_sun_declination,
        topocentric_local_hour_angle):
    f, d, h = (observer_latitude, topocentric_sun_declination,
               topocentric_local_hour_angle)
    return np.degrees(np.arcsin(sind(f)*sind(d) + cosd(f)*cosd(d)*cosd(h)))


@fn('atmospheric_refraction_correction', local_pressure=E(300, 1100, ge=0),
    local_temp=E(-50, 50, gt=-273),
    topocentric_elevation_angle_wo_atmosphere=E(-90, 90, gt=-90.1, lt=90.1,
                                                sp=[0, -0.8333, -0.834]),
    atmos_refract=P(0.4, 0.7, ge=0, le=2))
def atmospheric_refraction_correction(
        local_pressure, local_temp,
        topocentric_elevation_angle_wo_atmosphere, atmos_refract):
    e0 = topocentric_elevation_angle_wo_atmosphere
    with np.errstate(all='ignore'):
        q = 1.02/(60*tand(e0 + 10.3/(e0 + 5.11)))
        r = local_pressure/1010*(283/(273 + local_temp))*q
    # the sun counts as visible down to its radius plus refraction
    return r*np.where(e0 >= -(0.26667 + atmos_refract), 1, 0)


@fn('topocentric_elevation_angle',
    topocentric_elevation_angle_without_atmosphere=E(-90, 90),
    atmospheric_refraction_correction=E(0, 1))
def topocentric_elevation_angle(
        topocentric_elevation_angle_without_atmosphere,
        atmospheric_refraction_correction):
    return (topocentric_elevation_angle_without_atmosphere
            + atmospheric_refraction_correction)


@fn('topocentric_zenith_angle', topocentric_elevation_angle=E(-90, 91))
def topocentric_zenith_angle(topocentric_elevation_angle):
    return 90 - topocentric_elevation_angle


@fn('topocentric_astronomers_azimuth', **HOR)
def topocentric_astronomers_azimuth(
        topocentric_local_hour_angle, topocentric_sun_declination,
        observer_latitude):
    f, d, h = (observer_latitude, topocentric_sun_declination,
               topocentric_local_hour_angle)
    return np.degrees(np.arctan2(
        sind(h), cosd(h)*sind(f) - tand(d)*cosd(f))) % 360


@fn('topocentric_azimuth_angle', topocentric_astronomers_azimuth=DEG)
def topocentric_azimuth_angle(topocentric_astronomers_azimuth):
    return (topocentric_astronomers_azimuth + 180) % 360


# ----------------------------------------------------------- equation of time
@fn('sun_mean_longitude', julian_ephemeris_millennium=JME)
def sun_mean_longitude(julian_ephemeris_millennium):
    x = julian_ephemeris_millennium
    return (280.4664567 + 360007.6982779*x + 0.03032028*x**2 + x**3/49931
            - x**4/15300 - x**5/2000000)


@fn('equation_of_time', sun_mean_longitude=E(-1e4, 1e4),
    geocentric_sun_right_ascension=DEG, longitude_nutation=E(-.01, .01),
    true_ecliptic_obliquity=E(22, 25))
def equation_of_time(sun_mean_longitude, geocentric_sun_right_ascension,
                     longitude_nutation, true_ecliptic_obliquity):
    e = 4*((sun_mean_longitude - 0.0057183 - geocentric_sun_right_ascension
            + longitude_nutation*cosd(true_ecliptic_obliquity)) % 360)
    return np.where(e > 20, e - 1440, e)


# ---------------------------------------------------------------- composition
def call(n, outs=None, **k):
    return {S_ + n: ufn(S_ + n, outs, **k)}


class NutationStub:
    """callee contract: writes its two results in out"""

    def __init__(self):
        self.f = ufn(S_ + 'longitude_obliquity_nutation', ('psi', 'eps'),
                     skip=('out',))

    def __call__(self, jce, x0, x1, x2, x3, x4, out):
        out[0], out[1] = self.f(jce, x0, x1, x2, x3, x4, None)


NAMES = '''julian_day julian_ephemeris_day julian_century
julian_ephemeris_century julian_ephemeris_millennium heliocentric_longitude
heliocentric_latitude heliocentric_radius_vector geocentric_longitude
geocentric_latitude mean_elongation mean_anomaly_sun mean_anomaly_moon
moon_argument_latitude moon_ascending_longitude mean_ecliptic_obliquity
true_ecliptic_obliquity aberration_correction apparent_sun_longitude
mean_sidereal_time apparent_sidereal_time geocentric_sun_right_ascension
geocentric_sun_declination local_hour_angle equatorial_horizontal_parallax
uterm xterm yterm parallax_sun_right_ascension topocentric_sun_declination
topocentric_local_hour_angle topocentric_elevation_angle_without_atmosphere
atmospheric_refraction_correction topocentric_elevation_angle
topocentric_zenith_angle topocentric_astronomers_azimuth
topocentric_azimuth_angle sun_mean_longitude equation_of_time'''.split()
STUBS = {S_ + n: ufn(S_ + n) for n in NAMES}
STUBS[S_ + 'longitude_obliquity_nutation'] = NutationStub()


def algorithm(unixtime, lat, lon, elev, pressure, temp, delta_t,
              atmos_refract):
    """the SPA procedure, as a composition of its steps"""
    f = pv.spa
    jd = f.julian_day(unixtime)
    jc = f.julian_century(jd)
    jce = f.julian_ephemeris_century(f.julian_ephemeris_day(jd, delta_t))
    jme = f.julian_ephemeris_millennium(jce)
    r = f.heliocentric_radius_vector(jme)
    theta = f.geocentric_longitude(f.heliocentric_longitude(jme))
    beta = f.geocentric_latitude(f.heliocentric_latitude(jme))
    n = np.empty((2, len(unixtime)))
    f.longitude_obliquity_nutation(
        jce, f.mean_elongation(jce), f.mean_anomaly_sun(jce),
        f.mean_anomaly_moon(jce), f.moon_argument_latitude(jce),
        f.moon_ascending_longitude(jce), n)
    dpsi, deps = n[0], n[1]
    eps = f.true_ecliptic_obliquity(f.mean_ecliptic_obliquity(jme), deps)
    lam = f.apparent_sun_longitude(theta, dpsi, f.aberration_correction(r))
    nu = f.apparent_sidereal_time(f.mean_sidereal_time(jd, jc), dpsi, eps)
    alpha = f.geocentric_sun_right_ascension(lam, eps, beta)
    delta = f.geocentric_sun_declination(lam, eps, beta)
    h = f.local_hour_angle(nu, lon, alpha)
    xi = f.equatorial_horizontal_parallax(r)
    u = f.uterm(lat)
    x, y = f.xterm(u, lat, elev), f.yterm(u, lat, elev)
    da = f.parallax_sun_right_ascension(x, xi, h, delta)
    d1 = f.topocentric_sun_declination(delta, x, y, xi, da, h)
    h1 = f.topocentric_local_hour_angle(h, da)
    e0 = f.topocentric_elevation_angle_without_atmosphere(lat, d1, h1)
    e = f.topocentric_elevation_angle(
        e0, f.atmospheric_refraction_correction(pressure, temp, e0,
                                                atmos_refract))
    return dict(
        full=(f.topocentric_zenith_angle(e), f.topocentric_zenith_angle(e0),
              e, e0, f.topocentric_azimuth_angle(
                  f.topocentric_astronomers_azimuth(h1, d1, lat)),
              f.equation_of_time(f.sun_mean_longitude(jme), alpha, dpsi,
                                 eps)),
        sst=(nu, alpha, delta), esd=(r,))


LOC = dict(unixtime=E(-1e9, 3e9), lat=LAT, lon=LON, elev=P(-400, 9000),
           pressure=E(300, 1100), temp=E(-50, 50),
           delta_t=E(-10, 200), atmos_refract=P(0.4, 0.7))
LOCS = dict(LOC, pressure=P(300, 1100), temp=P(-50, 50))


@contract(S_ + 'solar_position_numpy', prop='C14', args=dict(
    LOC, numthreads=1, sst=Opt(False, True), esd=Opt(False, True)),
    kinds=('array', 'mixed'), symstubs=STUBS, pre=None)
def solar_position_numpy(numthreads, sst, esd, **k):
    r = algorithm(**k)
    return r['esd'] if esd else r['sst'] if sst else r['full']


@lemma('C14', S_ + 'solar_position_loop', args=dict(
    LOCS, mode=Opt('full', 'sst', 'esd')), kinds=('array',), symstubs=STUBS)
def solar_position_loop(unixtime, delta_t, mode, **k):
    want = algorithm(unixtime, delta_t=delta_t, **k)[mode]
    out = np.empty((len(want), len(unixtime)))
    pv.spa.solar_position_loop(unixtime, delta_t, np.array(
        [k['lat'], k['lon'], k['elev'], k['pressure'], k['temp'],
         k['atmos_refract'], mode == 'sst', mode == 'esd'],
        dtype=np.float64), out)
    for i, w in enumerate(want):
        yield f'row {i} ({mode})', eq(out[i], w)


@lemma('C14', S_ + 'solar_position', args=dict(
    LOC, mode=Opt('full', 'sst', 'esd')), kinds=('array',),
    symstubs={S_ + 'solar_position_numpy': ufn(
        S_ + 'solar_position_numpy', tuple('abcdef'))})
def solar_position(mode, **k):
    kw = dict(sst=mode == 'sst', esd=mode == 'esd')
    want = pv.spa.solar_position_numpy(numthreads=8, **kw, **k)
    got = pv.spa.solar_position(numthreads=8, **kw, **k)
    for i, w in enumerate(want):
        yield f'component {i}', eq(got[i], w)


@lemma('C14', S_ + 'solar_position_numba', args=dict(
    LOCS, mode=Opt('full', 'sst', 'esd')), kinds=('array',), symstubs=STUBS)
def solar_position_numba(mode, **k):
    # one thread, for arrays of any length
    kw = dict(sst=mode == 'sst', esd=mode == 'esd')
    k['delta_t'] = 67.0
    want = pv.spa.solar_position_numpy(numthreads=1, **kw, **k)
    got = pv.spa.solar_position_numba(numthreads=1, **kw, **k)
    for i, w in enumerate(want):
        yield f'component {i}', eq(got[i], w)


@lemma('C14', S_ + 'solar_position_numba', args=dict(
    LOCS, mode=Opt('full', 'sst', 'esd'), n=P(1, 40, integer=True),
    numthreads=P(0, 12, integer=True)), kinds=('array',), bounded=True,
    nconc=40)
def solar_position_threads(mode, n, numthreads, **k):
    # bounded: splitting over several threads (lengths and thread counts of
    # the sampled rows)
    kw = dict(sst=mode == 'sst', esd=mode == 'esd')
    k['unixtime'] = k['unixtime'][:n]
    k['delta_t'] = k['delta_t'][:n]
    want = pv.spa.solar_position_numpy(numthreads=1, **kw, **k)
    got = pv.spa.solar_position_numba(numthreads=numthreads, **kw, **k)
    yield 'number of results', len(got) == len(want)
    for i, w in enumerate(want):
        yield f'component {i}', bool(np.allclose(got[i], w, rtol=1e-9,
                                                 equal_nan=True))


# ---------------------------------------------------- sunrise, sunset, transit
class SpaStub:
    """solar_position as an array of uninterpreted functions of its inputs"""

    def __init__(self):
        self.f = {}

    def __call__(self, unixtime, lat, lon, elev, pressure, temp, delta_t,
                 atmos_refract, numthreads=8, sst=False, esd=False):
        n = 3 if sst else 1 if esd else 6
        f = self.f.setdefault(n, ufn(S_ + 'solar_position', tuple('abcdef'[
            :n]), sig=SIG))
        return np.array(f(unixtime, lat, lon, elev, pressure, temp, delta_t,
                          atmos_refract, numthreads, sst, esd))


def _sig(unixtime, lat, lon, elev, pressure, temp, delta_t, atmos_refract,
         numthreads, sst, esd):
    pass


import inspect
SIG = inspect.signature(_sig)


def wrapchange(d):
    """daily change of an angle, protected against the 360 degree jump"""
    return np.where(abs(d) > 2, d % 1, d)


@contract(S_ + 'transit_sunrise_sunset', prop='C14', args=dict(
    days=E(-10000, 30000, integer=True, nan=False), lat=P(-89, 89, sp=[0]),
    lon=LON, delta_t=P(0, 100), numthreads=1), kinds=('array',),
    symstubs={S_ + 'solar_position': SpaStub()},
    call=lambda days, **k: pv.spa.transit_sunrise_sunset(86400*days, **k),
    rtol=1e-9)
def transit_sunrise_sunset(days, lat, lon, delta_t, numthreads):
    t0 = 86400*days

    def spa(ts):
        return pv.spa.solar_position(ts, 0, 0, 0, 0, 0, delta_t, 0,
                                     numthreads, sst=True)
    nu = spa(t0)[0]
    am, a0, ap = (spa(t0 - delta_t + q)[1] for q in (-86400, 0, 86400))
    dm, d0, dp = (spa(t0 - delta_t + q)[2] for q in (-86400, 0, 86400))
    with np.errstate(all='ignore'):
        ch = (sind(-0.8333) - sind(lat)*sind(d0))/(cosd(lat)*cosd(d0))
        h0 = np.degrees(np.arccos(np.where(abs(ch) > 1, np.nan, ch))) % 180
    m0 = ((a0 - lon - nu)/360) % 1
    out = []
    for m, shift, is_transit in ((m0, 0, True), (m0 - h0/360, -1, False),
                                 (m0 + h0/360, 1, False)):
        f = m % 1
        if shift == -1:
            day = np.where(m < 0, -86400, 0)
        elif shift == 1:
            day = np.where(m >= 1, 86400, 0)
        else:
            day = 0
        f = m if is_transit else f
        n = f + delta_t/86400
        a, b = wrapchange(a0 - am), wrapchange(ap - a0)
        c, e = wrapchange(d0 - dm), wrapchange(dp - d0)
        alpha = a0 + n*(a + b + (b - a)*n)/2
        decl = d0 + n*(c + e + (e - c)*n)/2
        hp = (nu + 360.985647*f + lon - alpha) % 360
        hp = np.where(hp >= 180, hp - 360, hp)
        with np.errstate(all='ignore'):
            h = np.degrees(np.arcsin(sind(lat)*sind(decl)
                                     + cosd(lat)*cosd(decl)*cosd(hp)))
            if is_transit:
                q = f - hp/360
            else:
                q = f + (h + 0.8333)/(360*cosd(decl)*cosd(lat)*sind(hp))
        out.append(t0 + 86400*q + day)
    return out[0], out[1], out[2]


@lemma('C14', S_ + 'transit_sunrise_sunset', args=dict(
    days=E(-10000, 30000, integer=True, nan=False),
    frac=E(0.001, 0.999, nan=False, gt=0, lt=1),
    lat=P(-89, 89), lon=LON), kinds=('array',))
def transit_midnight(days, frac, lat, lon):
    yield 'dates that are not midnight UTC are refused', raises(
        ValueError, pv.spa.transit_sunrise_sunset, 86400*(days + frac), lat,
        lon, 67., 1)


@contract(S_ + 'earthsun_distance', prop='C14', args=dict(
    unixtime=E(-1e9, 3e9), delta_t=E(0, 100), numthreads=1),
    kinds=('array',), symstubs={S_ + 'solar_position': SpaStub()})
def earthsun_distance(unixtime, delta_t, numthreads):
    return pv.spa.solar_position(unixtime, 0, 0, 0, 0, 0, delta_t, 0,
                                 numthreads, esd=True)[0]


# ------------------------------------------------------------------- delta T
DT = [  # Espenak and Meeus, from the year, about the year, coefficients
    (None, 1820, (-20, 0, 32e-4)),
    (-500, 0, (10583.6, -1014.41e-2, 33.78311e-4, -5.952053e-6,
               -0.1798452e-8, 0.022174192e-10, 0.0090316521e-12)),
    (500, 1000, (1574.2, -556.01e-2, 71.23472e-4, 0.319781e-6,
                 -0.8503463e-8, -0.005050998e-10, 0.0083572073e-12)),
    (1600, 1600, (120, -0.9808, -0.01532, (1, 7129))),
    (1700, 1700, (8.83, 0.1603, -0.0059285, 0.00013336, (-1, 1174000))),
    (1800, 1800, (13.72, -0.332447, 0.0068612, 0.0041116, -0.00037436,
                  0.0000121272, -0.0000001699, 0.000000000875)),
    (1860, 1860, (7.62, 0.5737, -0.251754, 0.01680668, -0.0004473624,
                  (1, 233174))),
    (1900, 1900, (-2.79, 1.494119, -0.0598939, 0.0061966, -0.000197)),
    (1920, 1920, (21.20, 0.84493, -0.076100, 0.0020936)),
    (1941, 1950, (29.07, 0.407, (-1, 233), (1, 2547))),
    (1961, 1975, (45.45, 1.067, (-1, 260), (-1, 718))),
    (1986, 2000, (63.86, 0.3345, -0.060374, 0.0017275, 0.000651814,
                  0.00002373599)),
    (2005, 2000, (62.92, 0.32217, 0.005589)),
    (2050, None, None), (2150, 1820, (-20, 0, 32e-4))]


def deltat(year, month):
    y = year + (month - 0.5)/12
    out = None
    for start, mid, co in DT:
        if mid is None:
            v = -20 + 32*((y - 1820)/100)**2 - 0.5628*(2150 - y)
        else:
            v = 0
            for i, q in enumerate(co):
                q = q[0]/q[1] if isinstance(q, tuple) else q
                v = v + q*(y - mid)**i
        out = v if out is None else np.where(year >= start, v, out)
    return out


@contract(S_ + 'calculate_deltat', prop='C14', args=dict(
    year=E(-1999, 3000, integer=True, nan=False, sp=[
        -501, -500, 499, 500, 1599, 1600, 1699, 1700, 1799, 1800, 1859, 1860,
        1899, 1900, 1919, 1920, 1940, 1941, 1960, 1961, 1985, 1986, 2004,
        2005, 2049, 2050, 2149, 2150]),
    month=E(1, 12, integer=True, nan=False)), kinds=AS, loose=True)
def calculate_deltat(year, month):
    return deltat(year, month)


@contract(S_ + 'calculate_deltat', prop='C14',
          name=S_ + 'calculate_deltat(beyond the range)', args=dict(
              year=E(-6000, 9000, integer=True, nan=False,
                     sp=[-1999, -2000, 3000, 3001]),
              month=E(1, 12, integer=True, nan=False)), kinds=AS, loose=True)
def calculate_deltat_beyond(year, month):
    return deltat(year, month)


# ============================================================ solarposition.py
O_ = 'pvlib.solarposition.'
ZONES = (None, 'UTC', 'Etc/GMT+7', 'America/New_York')


@contract(O_ + '_datetime_to_unixtime', prop='C14', args=dict(
    dtindex=Opt(*[Times(z) for z in ZONES])), kinds=('array',), rtol=1e-12)
def datetime_to_unixtime(dtindex):
    return unix(dtindex)


CALL = dict(latitude=LAT, longitude=LON)
SPA6 = ('apparent_zenith', 'zenith', 'apparent_elevation', 'elevation',
        'azimuth', 'equation_of_time')


class Spa6(SpaStub):
    pass


SOLPOS = {S_ + 'solar_position': SpaStub(),
          S_ + 'calculate_deltat': ufn(S_ + 'calculate_deltat')}


@contract(O_ + 'spa_python', prop='C14', args=dict(
    CALL, time=Opt(*[Times(z) for z in ZONES]), altitude=P(0, 4000),
    pressure=E(5e4, 1.1e5), temperature=E(-30, 45),
    delta_t=Opt(P(50, 80), None), atmos_refract=Opt(None, P(0.3, 0.7, gt=0))),
    kinds=('array', 'series', 'scalar'), symstubs=SOLPOS)
def spa_python(time, latitude, longitude, altitude, pressure, temperature,
               delta_t, atmos_refract):
    utc = time if time.tz is None else time.tz_convert('UTC')
    dt = pv.spa.calculate_deltat(utc.year, utc.month) if delta_t is None \
        else delta_t
    r = pv.spa.solar_position(
        unix(time), latitude, longitude, altitude, pressure/100, temperature,
        dt, 0.5667 if atmos_refract is None else atmos_refract, 4)
    return pd.DataFrame(dict(zip(SPA6, r)), index=time)


@lemma('C14', O_ + 'spa_python', args=dict(
    CALL, time=Times('UTC')), kinds=('array',), symstubs=SOLPOS)
def spa_zone_free(time, latitude, longitude):
    # only the instants matter, not the zone they are given in
    f = pv.solarposition.spa_python
    a = f(time, latitude, longitude)
    for z in ZONES[1:]:
        b = f(time.tz_convert(z), latitude, longitude)
        for n in SPA6:
            yield f'{n} in {z}', eq(np.asarray(b[n]), np.asarray(a[n]))


GSP = {O_ + 'spa_python': ufn(O_ + 'spa_python', SPA6, form='frame'),
       O_ + 'ephemeris': ufn(O_ + 'ephemeris', SPA6[:5] + ('solar_time',),
                             form='frame'),
       'pvlib.atmosphere.pres2alt': ufn('pvlib.atmosphere.pres2alt'),
       'pvlib.atmosphere.alt2pres': ufn('pvlib.atmosphere.alt2pres')}


@contract(O_ + 'get_solarposition', prop='C14', args=dict(
    CALL, time=Times('UTC'), altitude=Opt(None, P(-300, 8000)),
    pressure=Opt(None, P(3e4, 1.1e5)), method=Opt(
        'nrel_numpy', 'NREL_Numpy', 'nrel_numba', 'ephemeris'),
    temperature=P(-30, 45)), kinds=('array',), symstubs=GSP, nconc=20)
def get_solarposition(time, latitude, longitude, altitude, pressure, method,
                      temperature):
    m = pv.solarposition
    if altitude is None:
        altitude = 0. if pressure is None else pv.atmosphere.pres2alt(
            pressure)
        if pressure is None:
            pressure = 101325.
    elif pressure is None:
        pressure = pv.atmosphere.alt2pres(altitude)
    if method == 'ephemeris':
        return m.ephemeris(time, latitude, longitude, pressure, temperature)
    return m.spa_python(time, latitude, longitude, altitude, pressure,
                        temperature, how=method.lower()[5:])


@lemma('C14', O_ + 'get_solarposition', args=dict(CALL, time=Times('UTC')),
       kinds=('array',))
def unknown_method(time, latitude, longitude):
    yield 'unknown method is refused', raises(
        ValueError, pv.solarposition.get_solarposition, time, latitude,
        longitude, method='nrel')


@lemma('C14', O_ + 'sun_rise_set_transit_spa', args=dict(
    CALL, times=Opt(Times('UTC'), Times('Etc/GMT+7'),
                    Times('America/New_York')),
    delta_t=Opt(P(50, 80), None)), kinds=('array',), symstubs={
        S_ + 'transit_sunrise_sunset': ufn(
            S_ + 'transit_sunrise_sunset', ('t', 'r', 's'),
            facts=lambda r, **k: [either(isnan(v), isfinite(v))
                                  for v in r]),
        S_ + 'calculate_deltat': ufn(S_ + 'calculate_deltat')})
def sun_rise_set_transit_spa(times, latitude, longitude, delta_t):
    got = pv.solarposition.sun_rise_set_transit_spa(
        times, latitude, longitude, delta_t=delta_t)
    utc = times.tz_convert('UTC')
    # the UTC midnight that bears the local calendar date
    day = np.floor(unix(times.tz_localize(None))/86400)*86400
    dt = pv.spa.calculate_deltat(utc.year, utc.month) if delta_t is None \
        else delta_t
    want = pv.spa.transit_sunrise_sunset(day, latitude, longitude, dt, 4)
    for n, w in zip(('transit', 'sunrise', 'sunset'), want):
        yield n, eq(unix(got[n]), w)
    yield 'index', got.index is times or bool(got.index.equals(times))


@lemma('C14', O_ + 'sun_rise_set_transit_spa', args=dict(
    CALL, times=Times(None)), kinds=('array',))
def naive_refused(times, latitude, longitude):
    m = pv.solarposition
    yield 'sun_rise_set_transit_spa refuses naive times', raises(
        ValueError, m.sun_rise_set_transit_spa, times, latitude, longitude)
    yield 'hour_angle refuses naive times', raises(
        ValueError, m.hour_angle, times, longitude, 0.)
    yield 'sun_rise_set_transit_geometric refuses naive times', raises(
        ValueError, m.sun_rise_set_transit_geometric, times, latitude,
        longitude, 0.1, 0.)


@contract(O_ + 'nrel_earthsun_distance', prop='C14', args=dict(
    time=Opt(*[Times(z) for z in ZONES]), delta_t=Opt(P(50, 80), None)),
    kinds=('array',), symstubs={
        S_ + 'earthsun_distance': ufn(S_ + 'earthsun_distance', array=True),
        S_ + 'calculate_deltat': ufn(S_ + 'calculate_deltat')})
def nrel_earthsun_distance(time, delta_t):
    utc = time if time.tz is None else time.tz_convert('UTC')
    dt = pv.spa.calculate_deltat(utc.year, utc.month) if delta_t is None \
        else delta_t
    return pd.Series(pv.spa.earthsun_distance(unix(time), dt, 4), index=time)


# ------------------------------------------------------- analytical functions
DOY = E(1, 366, nan=True)
ANY = ('array', 'series', 'scalar')


def ang(doy, offset=1):
    return 2*np.pi/365*(doy - offset)


@contract(O_ + 'equation_of_time_spencer71', prop='C14',
          args=dict(dayofyear=DOY), kinds=ANY)
def equation_of_time_spencer71(dayofyear):
    x = ang(dayofyear)
    return 1440/(2*np.pi)*(
        0.0000075 + 0.001868*np.cos(x) - 0.032077*np.sin(x)
        - 0.014615*np.cos(2*x) - 0.040849*np.sin(2*x))


@contract(O_ + 'equation_of_time_pvcdrom', prop='C14',
          args=dict(dayofyear=DOY), kinds=ANY)
def equation_of_time_pvcdrom(dayofyear):
    b = 2*np.pi/365*(dayofyear - 81)
    return 9.87*np.sin(2*b) - 7.53*np.cos(b) - 1.5*np.sin(b)


@contract(O_ + 'declination_spencer71', prop='C14',
          args=dict(dayofyear=DOY), kinds=ANY)
def declination_spencer71(dayofyear):
    x = ang(dayofyear)
    return (0.006918 - 0.399912*np.cos(x) + 0.070257*np.sin(x)
            - 0.006758*np.cos(2*x) + 0.000907*np.sin(2*x)
            - 0.002697*np.cos(3*x) + 0.00148*np.sin(3*x))


@contract(O_ + 'declination_cooper69', prop='C14',
          args=dict(dayofyear=DOY), kinds=ANY)
def declination_cooper69(dayofyear):
    return np.radians(23.45*np.sin(2*np.pi/365*(284 + dayofyear)))


RAD = dict(latitude=E(-1.57, 1.57), hourangle=E(-3.2, 3.2, sp=[0]),
           declination=E(-.41, .41))


@contract(O_ + 'solar_zenith_analytical', prop='C14', args=RAD, kinds=ANY)
def solar_zenith_analytical(latitude, hourangle, declination):
    return np.arccos(np.cos(declination)*np.cos(latitude)*np.cos(hourangle)
                     + np.sin(declination)*np.sin(latitude))


@contract(O_ + 'solar_azimuth_analytical', prop='C14', args=dict(
    RAD, zenith=E(0, 3.1, sp=[0])), kinds=('array', 'scalar'), loose=True)
def solar_azimuth_analytical(latitude, hourangle, declination, zenith):
    num = np.cos(zenith)*np.sin(latitude) - np.sin(declination)
    den = np.sin(zenith)*np.cos(latitude)
    with np.errstate(all='ignore'):
        c = num/den
        c = np.where(abs(den) <= 1e-8, 1., c)
        c = np.where(abs(c - 1) <= 1e-8, 1., c)
        c = np.where(abs(c + 1) <= 1e-8, -1., c)
        return np.sign(hourangle)*np.arccos(c) + np.pi


# ----------------------------------------------- hour angle and local clocks
LOCAL = tuple(Times(z) for z in ZONES[1:])


def ut_hours(times):
    """UTC hours since the UTC midnight that bears the local calendar date"""
    clock = unix(times.tz_localize(None))
    return (unix(times) - 86400*np.floor(clock/86400))/3600


@contract(O_ + 'hour_angle', prop='C14', args=dict(
    times=Opt(*LOCAL), longitude=LON, equation_of_time=E(-20, 20)),
    kinds=('array', 'scalar'), loose=True)
def hour_angle(times, longitude, equation_of_time):
    return (15*(ut_hours(times) - 12) + longitude + equation_of_time/4)


@contract(O_ + '_times_to_hours_after_local_midnight', prop='C14',
          args=dict(times=Opt(*LOCAL)), kinds=('array',))
def times_to_hours(times):
    clock = unix(times.tz_localize(None))
    return (clock - 86400*np.floor(clock/86400))/3600


@lemma('C14', O_ + 'sun_rise_set_transit_geometric', args=dict(
    times=Opt(*LOCAL), latitude=P(-89, 89), longitude=LON,
    declination=E(-.41, .41), equation_of_time=E(-20, 20)), kinds=('array',))
def sun_rise_set_transit_geometric(times, latitude, longitude, declination,
                                   equation_of_time):
    got = pv.solarposition.sun_rise_set_transit_geometric(
        times, latitude, longitude, declination, equation_of_time)
    clock = unix(times.tz_localize(None))
    day = 86400*np.floor(clock/86400)   # UTC midnight, local calendar date
    with np.errstate(all='ignore'):
        w = np.degrees(np.arccos(-np.tan(declination)*tand(latitude)))
    noon = 12 - longitude/15 - equation_of_time/60
    for n, r, h in zip(('sunrise', 'sunset', 'transit'), got,
                       (noon - w/15, noon + w/15, noon)):
        yield n, eq(unix(r), day + 3600*h, rtol=1e-12, atol=1e-3)
        yield n + ' in the zone of the input', str(r.tz) == str(times.tz)


@lemma('C14', O_ + 'hour_angle', args=dict(
    times=Times('UTC'), longitude=LON, eot=E(-20, 20, nan=False)),
    kinds=('array',))
def hour_angle_zone(times, longitude, eot):
    # the hour angle of an instant does not depend on the zone it is given
    # in, up to whole turns
    f = pv.solarposition.hour_angle
    a = f(times, longitude, eot)
    for z in ZONES[2:]:
        b = f(times.tz_convert(z), longitude, eot)
        yield f'in {z}', eq((a - b)/360, np.floor((a - b)/360 + 0.5))


@lemma('C14', S_ + 'topocentric_elevation_angle_without_atmosphere', args=HOR,
       kinds=('array',))
def ranges(**k):
    e = pv.spa.topocentric_elevation_angle_without_atmosphere(**k)
    z = pv.spa.topocentric_zenith_angle(e)
    yield 'true zenith within 0..180', implies(neg(isnan(e)),
                                               between(z, 0, 180))
    a = pv.spa.topocentric_azimuth_angle(
        pv.spa.topocentric_astronomers_azimuth(**k))
    yield 'azimuth within 0..360', implies(neg(isnan(a)), both(
        ge(a, 0), lt(a, 360)))
