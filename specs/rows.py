"""Row-to-row and row-to-ground view factors and bifacial irradiance (C19)."""
from pvc.api import *
import numpy as np
import pandas as pd

U_ = 'pvlib.bifacial.utils.'
S_ = 'pvlib.bifacial.infinite_sheds.'
TILT = E(-90, 90, nan=False)
GCR = P(.1, .9, gt=0)


def cosd(v):
    return np.cos(np.deg2rad(v))


def sind(v):
    return np.sin(np.deg2rad(v))


def tand(v):
    return np.tan(np.deg2rad(v))


def ser(*v):
    return any(isinstance(x, pd.Series) for x in v)


@contract(U_ + '_solar_projection_tangent', prop='C19', args=dict(
    solar_zenith=E(0, 120), solar_azimuth=E(0, 360),
    surface_azimuth=E(0, 360)), kinds=('array', 'series', 'scalar', 'mixed'))
def tangent(solar_zenith, solar_azimuth, surface_azimuth):
    return cosd(solar_azimuth - surface_azimuth)*tand(solar_zenith)


# ----------------------------------------------------------- shaded ground
def unshaded(rot, phi, gcr, height, pitch, rows, top, g0, g1):
    """one minus the clipped sum of the overlaps of the shadows of the rows
    with the ground segment"""
    sind, cosd, tand = pv.tools.sind, pv.tools.cosd, pv.tools.tand
    w = pitch*gcr
    t = tand(phi)
    a, b = g0*pitch, g1*pitch
    tot = 0
    for k in range(-rows, rows + 2):
        e1 = k*pitch + w/2*cosd(rot) + (height + w/2*sind(rot))*t
        e2 = k*pitch - w/2*cosd(rot) + (height - w/2*sind(rot))*t
        lo, hi = np.minimum(e1, e2), np.maximum(e1, e2)
        tot = tot + np.maximum(np.minimum(hi, b) - np.maximum(lo, a), 0)/(
            b - a)
    return np.where(np.abs(phi) > top, 0, 1 - np.clip(tot, 0, 1))


TRIG = {'pvlib.tools.' + n: ufn('pvlib.tools.' + n, facts=lambda r, **k: [
    isfinite(r)])
        for n in ('sind', 'cosd', 'tand')}


@lemma('C19', U_ + '_unshaded_ground_fraction', args=dict(
    rot=TILT, phi=E(-89, 89, nan=False), geometry=Opt((.4, 5), (.3, 10)),
    height=P(1.5, 5), seg=Opt((0, 1), (0, .5), (.25, .75), (.7, 1)),
    max_rows=Opt(0, 1), top=Opt(85, 70)),
    kinds=('array', 'scalar'), budget=60, symstubs=TRIG)
def ground_shade(rot, phi, geometry, height, seg, max_rows, top):
    gcr, pitch = geometry
    g0, g1 = seg
    f = pv.bifacial.utils._unshaded_ground_fraction
    got = f(rot, phi, gcr, height, pitch, max_rows, top, g0, g1)
    if seg == (0, 1):
        height, pitch = 1, 1/gcr
    yield 'fraction', same(got, unshaded(
        rot, phi, gcr, height, pitch, max_rows, top, g0, g1), types=False)


@contract(U_ + '_unshaded_ground_fraction', prop='C19', bounded=True,
          name=U_ + '_unshaded_ground_fraction(rows)', args=dict(
              tracker_rotation=TILT, phi=E(-89, 89, nan=False, sp=[0]),
              gcr=GCR, max_rows=Opt(10, 3)), kinds=('array',), loose=True)
def ground_shade_rows(tracker_rotation, phi, gcr, max_rows):
    return unshaded(tracker_rotation, phi, gcr, 1, 1/gcr, max_rows, 85, 0, 1)


# ------------------------------------------------------------- row and sky
def poly(c, gcr, x, d):
    return np.sqrt(1/gcr**2 + 2*d*c*x/gcr + x**2)


PT = dict(surface_tilt=E(-180, 180, nan=False), gcr=GCR, x=P(0, 1, req=True))


@contract(U_ + 'vf_row_sky_2d', prop='C19', args=PT,
          kinds=('array', 'scalar'))
def row_sky(surface_tilt, gcr, x):
    c = cosd(surface_tilt)
    return (1 + (c/gcr - 1 + x)/poly(c, gcr, 1 - x, -1))/2


@contract(U_ + 'vf_row_ground_2d', prop='C19', args=PT,
          kinds=('array', 'scalar'))
def row_ground(surface_tilt, gcr, x):
    c = cosd(surface_tilt)
    return (1 - (c/gcr + x)/poly(c, gcr, x, 1))/2


@lemma('C19', U_ + 'vf_row_ground_2d', args=PT, kinds=('array',))
def row_facts(surface_tilt, gcr, x):
    u = pv.bifacial.utils
    s, g = u.vf_row_sky_2d(surface_tilt, gcr, x), \
        u.vf_row_ground_2d(surface_tilt, gcr, x)
    yield 'the ground seen is the sky seen by the row turned over', eq(
        g, u.vf_row_sky_2d(180 - surface_tilt, gcr, 1 - x))


@lemma('C19', U_ + 'vf_row_sky_2d', args=dict(
    tilt=E(-180, 180, nan=False), gcr=GCR, x=P(0, 1, req=True)),
    kinds=('array',), bounded=True, nconc=20)
def row_range(tilt, gcr, x):
    u = pv.bifacial.utils
    for f in (u.vf_row_sky_2d, u.vf_row_ground_2d):
        yield f.__name__, both(le(0, f(tilt, gcr, x)), le(
            f(tilt, gcr, x), 1))
    yield 'at most everything', le(
        u.vf_row_sky_2d(tilt, gcr, x) + u.vf_row_ground_2d(tilt, gcr, x), 1,
        tol=1e-9)


@contract(U_ + 'vf_row_sky_2d_integ', prop='C19', args=dict(
    surface_tilt=E(-180, 180, nan=False), gcr=GCR, x0=P(0, .5, req=True),
    x1=P(.5, 1, gt=.5001, le=1)), kinds=('array', 'scalar'), loose=True)
def row_sky_integ(surface_tilt, gcr, x0, x1):
    c = cosd(surface_tilt)
    a = np.where(surface_tilt < 0, 1 - x1, x0)
    b = np.where(surface_tilt < 0, 1 - x0, x1)
    return (1 + (poly(c, gcr, 1 - b, -1) - poly(c, gcr, 1 - a, -1))/(
        b - a))/2


def quad(f, lo, hi, n=24):
    """Gauss-Legendre mean of f over [lo, hi]"""
    q, w = np.polynomial.legendre.leggauss(n)
    m = 64
    e = np.linspace(lo, hi, m + 1)
    tot = 0
    for p, r in zip(e[:-1], e[1:]):
        for qi, wi in zip(q, w):
            tot = tot + wi/2/m*f(p + (r - p)*(qi + 1)/2)
    return tot


@lemma('C19', U_ + 'vf_row_sky_2d_integ', bounded=True, args=dict(
    tilt=E(0, 180, nan=False), gcr=P(.1, .8), x0=P(0, .5), x1=P(.6, 1)),
    kinds=('array',), nconc=6)
def row_mean(tilt, gcr, x0, x1):
    u = pv.bifacial.utils
    yield 'sky: mean over the segment', eq(
        u.vf_row_sky_2d_integ(tilt, gcr, x0, x1),
        quad(lambda x: u.vf_row_sky_2d(tilt, gcr, x), x0, x1, 8), atol=1e-7)
    yield 'sky: a point', eq(u.vf_row_sky_2d_integ(tilt, gcr, x0, x0),
                             u.vf_row_sky_2d(tilt, gcr, x0))
    k = dict(height=5., pitch=4., max_rows=400)
    yield 'ground: mean over the segment', eq(
        u.vf_row_ground_2d_integ(tilt*.99 + .5, gcr, x0=x0, x1=x1, **k),
        quad(lambda x: u.vf_row_ground_2d(tilt*.99 + .5, gcr, x), x0, x1, 8),
        atol=2e-3)


# ---------------------------------------------------------- ground and sky
def sky_seen(rot, gcr, x, pitch, height, rows):
    """visible half of the sky vault between the rows: the gap between
    consecutive rows k and k + 1 is seen from the lower angle of row k to the
    upper angle of row k + 1"""
    w = gcr*pitch/2

    def ends(k):
        m = (k - x)*pitch
        p = np.arctan2(height + w*sind(rot), m + w*cosd(rot))
        q = np.arctan2(height - w*sind(rot), m - w*cosd(rot))
        return np.minimum(p, q), np.maximum(p, q)
    tot = 0
    for k in range(-rows, rows + 1):
        tot = tot + np.maximum(
            np.cos(ends(k + 1)[1]) - np.cos(ends(k)[0]), 0)/2
    return tot


@contract(U_ + 'vf_ground_sky_2d', prop='C19', bounded=True, args=dict(
    rotation=TILT, gcr=GCR, x=P(-1, 2), pitch=P(1, 10), height=P(1, 5),
    max_rows=Opt(3, 0)), kinds=('array',), loose=True, nconc=15)
def ground_sky(rotation, gcr, x, pitch, height, max_rows):
    return np.atleast_2d(sky_seen(rotation, gcr, x, pitch, height, max_rows))


@contract(U_ + 'vf_ground_sky_2d', prop='C19', bounded=True,
          name=U_ + 'vf_ground_sky_2d(points)', args=dict(
              rotation=TILT, gcr=GCR, x=Val(np.linspace(0, 1, 5)),
              pitch=P(1, 10), height=P(1, 5)), kinds=('array',), loose=True,
          nconc=5)
def ground_sky_points(rotation, gcr, x, pitch, height):
    return np.array([sky_seen(rotation, gcr, v, pitch, height, 10)
                     for v in x])


@lemma('C19', U_ + 'vf_ground_sky_2d_integ', bounded=True, args=dict(
    rot=E(-89, 89, nan=False), gcr=P(.1, .8), pitch=P(2, 8), height=P(3.5, 6),
    g0=P(0, .5), g1=P(.6, 1)), kinds=('array',), nconc=4)
def ground_sky_mean(rot, gcr, pitch, height, g0, g1):
    f = pv.bifacial.utils.vf_ground_sky_2d_integ

    def mean(a, b):
        return quad(lambda x: sky_seen(rot, gcr, x, pitch, height, 40),
                    a, b, 4)
    yield 'mean over the segment', eq(
        f(rot, gcr, height, pitch, max_rows=40, g0=g0, g1=g1), mean(g0, g1),
        atol=1e-3)
    r = f(rot, gcr, height, pitch, max_rows=40, g0=np.array([0, g1]),
          g1=np.array([g1, 1]))
    yield 'first segment', eq(r[0], mean(0, g1), atol=1e-3)
    yield 'second segment', implies(g1 < .999, eq(
        r[1], mean(g1, 1), atol=5e-3))


# --------------------------------------------------------- infinite sheds
@contract(S_ + '_poa_ground_shadows', prop='C19', args=dict(
    ghi=E(0, 1200), dhi=E(0, 600), albedo=E(0, 1), f_gnd_beam=E(0, 1),
    vf_gnd_sky=E(0, 1)), kinds=('array', 'series', 'scalar'))
def ground_shadows(ghi, dhi, albedo, f_gnd_beam, vf_gnd_sky):
    return albedo*(f_gnd_beam*(ghi - dhi) + vf_gnd_sky*dhi)


UT = {U_ + n: ufn(U_ + n, array=True) for n in (
    'vf_row_sky_2d_integ', 'vf_row_ground_2d_integ', 'vf_ground_sky_2d_integ',
    '_unshaded_ground_fraction')}


@contract(S_ + '_backside', prop='C19', args=dict(
    tilt=E(0, 180), surface_azimuth=E(-360, 720)),
    kinds=('array', 'series', 'scalar'))
def backside(tilt, surface_azimuth):
    return 180 - tilt, (surface_azimuth + 180) % 360


SHEET = dict(surface_tilt=E(0, 90), surface_azimuth=E(0, 360),
             solar_zenith=E(0, 110), solar_azimuth=E(0, 360))


def row_shade(zenith, solar_azimuth, tilt, azimuth, gcr):
    p = pv.tools
    t = pv.bifacial.utils._solar_projection_tangent(zenith, solar_azimuth,
                                                    azimuth)
    x = gcr*(p.sind(tilt)*t + p.cosd(tilt))
    a = pv.irradiance.aoi(tilt, azimuth, zenith, solar_azimuth)
    return np.where(x > 1, np.where(a < 90, 1 - 1/x, 1), 0)


AOI = {'pvlib.irradiance.aoi': ufn('pvlib.irradiance.aoi')}


@lemma('C19', S_ + '_shaded_fraction', args=dict(SHEET, gcr=GCR),
       kinds=('array', 'series', 'scalar'), symstubs=dict(
           AOI, **TRIG, **{U_ + '_solar_projection_tangent': ufn(
               U_ + '_solar_projection_tangent')}))
def shaded_fraction(surface_tilt, surface_azimuth, solar_zenith,
                    solar_azimuth, gcr):
    a = (solar_zenith, solar_azimuth, surface_tilt, surface_azimuth, gcr)
    yield 'fraction', same(
        module('pvlib.bifacial.infinite_sheds')._shaded_fraction(*a),
        row_shade(*a), types=False)


HD = ('poa_sky_diffuse', 'poa_isotropic', 'poa_circumsolar', 'poa_horizon')
POA = dict(
    UT, **AOI, **{
        S_ + '_shaded_fraction': ufn(S_ + '_shaded_fraction', array=True),
        S_ + 'haydavies': ufn('pvlib.irradiance.haydavies', HD, form='frame'),
        'pvlib.irradiance.haydavies': ufn('pvlib.irradiance.haydavies', HD,
                                          form='frame'),
        'pvlib.irradiance.beam_component': ufn(
            'pvlib.irradiance.beam_component')})
WX = dict(ghi=E(0, 1200), dhi=E(0, 600), dni=E(0, 1000), albedo=E(0, 1))


@lemma('C19', S_ + 'get_irradiance_poa', args=dict(
    SHEET, **WX, gcr=GCR, height=Opt(1.5, 3), pitch=Opt(5, 8),
    sky=Opt('default', 'isotropic', 'haydavies'), dni_extra=E(1300, 1420),
    iam=Opt(None, E(0, 1))), kinds=('array', 'series', 'scalar'),
    symstubs=POA, nconc=12)
def irradiance_poa(surface_tilt, surface_azimuth, solar_zenith,
                   solar_azimuth, gcr, height, pitch, ghi, dhi, dni, albedo,
                   sky, dni_extra, iam):
    u, s = pv.bifacial.utils, module('pvlib.bifacial.infinite_sheds')
    k = {} if iam is None else dict(iam=iam)
    if sky != 'default':
        k['model'] = sky
    if sky == 'haydavies':
        k['dni_extra'] = dni_extra
    sun = (solar_zenith, solar_azimuth)
    pos = (surface_tilt, surface_azimuth) + sun
    got = s.get_irradiance_poa(*pos, gcr, height, pitch, ghi, dhi, dni,
                               albedo, **k)
    iam = 1 if iam is None else iam
    if sky == 'haydavies':
        hd = pv.irradiance.haydavies
        flat = hd(0, 180, dhi, dni, dni_extra, *sun, return_components=True)
        face = hd(*sun, dhi, dni, dni_extra, *sun, return_components=True)
        dhi, dni = (dhi - flat['poa_circumsolar'],
                    dni + face['poa_circumsolar'])
    rows = int(np.ceil(height/(pitch*np.tan(np.deg2rad(5.)))))
    phi = pv.tools.atand(cosd(solar_azimuth - surface_azimuth)*tand(
        solar_zenith))
    beam = u._unshaded_ground_fraction(surface_tilt, phi, gcr)
    seen = u.vf_ground_sky_2d_integ(surface_tilt, gcr, height, pitch,
                                    max_rows=rows)
    fx = s._shaded_fraction(*sun, surface_tilt, surface_azimuth, gcr)
    back = albedo*(beam*(ghi - dhi) + seen*dhi)
    w = dict(shaded_fraction=fx, poa_sky_diffuse=dhi*u.vf_row_sky_2d_integ(
        surface_tilt, gcr, 0., 1.), poa_ground_diffuse=back *
        u.vf_row_ground_2d_integ(surface_tilt, gcr, x0=0., x1=1., g0=0.,
                                 g1=1.))
    w['poa_diffuse'] = w['poa_sky_diffuse'] + w['poa_ground_diffuse']
    w['poa_direct'] = pv.irradiance.beam_component(*pos, dni)*(1 - fx)*iam
    w['poa_global'] = w['poa_direct'] + w['poa_diffuse']
    if isinstance(ghi, pd.Series):
        yield 'a frame', isinstance(got, pd.DataFrame)
        yield 'same times', got.index.equals(ghi.index)
    yield 'columns', set(got) == set(w)
    for n, v in w.items():
        yield n, eq(got[n], v)


@lemma('C19', S_ + 'get_irradiance_poa', args=dict(SHEET, **WX, gcr=GCR),
       kinds=('array',), symstubs=POA, nconc=3, name='haydavies refused')
def refused(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, ghi,
            dhi, dni, albedo, gcr):
    yield 'needs dni_extra', raises(
        ValueError, pv.bifacial.infinite_sheds.get_irradiance_poa,
        surface_tilt, surface_azimuth, solar_zenith, solar_azimuth, gcr, 1.5,
        5, ghi, dhi, dni, albedo, model='haydavies')


ONE = ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_ground_diffuse',
       'poa_sky_diffuse', 'shaded_fraction')


@lemma('C19', S_ + 'get_irradiance', args=dict(
    SHEET, **WX, gcr=GCR, height=P(1, 4), pitch=P(4, 8),
    sky=Opt('isotropic', 'haydavies'), dni_extra=E(1300, 1420),
    opts=Opt(None, Dct('dict', iam_front=P(.5, 1), iam_back=P(.5, 1),
                       bifaciality=P(.5, 1), shade_factor=P(-.2, 0),
                       transmission_factor=P(0, .2)))),
    kinds=('array', 'series'), nconc=8, symstubs={
        S_ + 'get_irradiance_poa': ufn(S_ + 'get_irradiance_poa', ONE,
                                       form='frame')})
def irradiance(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth,
               gcr, height, pitch, ghi, dhi, dni, albedo, sky, dni_extra,
               opts):
    s = module('pvlib.bifacial.infinite_sheds')
    k = dict(model=sky, dni_extra=dni_extra)
    rest = (solar_zenith, solar_azimuth, gcr, height, pitch, ghi, dhi, dni,
            albedo)
    got = s.get_irradiance(surface_tilt, surface_azimuth, *rest, **k,
                           **(opts or {}))
    o = dict(dict(iam_front=1., iam_back=1., bifaciality=.8,
                  shade_factor=-.02, transmission_factor=0), **(opts or {}))
    f = s.get_irradiance_poa(surface_tilt, surface_azimuth, *rest, **k,
                             iam=o['iam_front'])
    b = s.get_irradiance_poa(180. - surface_tilt,
                             (180. + surface_azimuth) % 360, *rest, **k,
                             iam=o['iam_back'])
    yield 'number of results', len([c for c in got]) == 13
    for side, r in (('front', f), ('back', b)):
        for n in ONE:
            m = f'{n}_{side}' if n == 'shaded_fraction' else n.replace(
                'poa', 'poa_' + side).replace('_global', '')
            yield m, eq(got[m], r[n])
    yield 'both sides', eq(got['poa_global'], f['poa_global'] + b[
        'poa_global']*o['bifaciality']*(1 + o['shade_factor'])*(
            1 + o['transmission_factor']))


# --------------------------------------------------------------- mismatch
@contract('pvlib.bifacial.loss_models.power_mismatch_deline', prop='C19',
          args=dict(rmad=E(0, 1), fill_factor=Opt(None, P(.5, .9, gt=0)),
                    fill_factor_reference=P(.6, .9, gt=0)),
          kinds=('array', 'series', 'scalar'))
def mismatch(rmad, fill_factor, fill_factor_reference):
    ff = 1 if fill_factor is None else fill_factor/fill_factor_reference
    return (.142*rmad + 3.2*rmad**2)*ff


@lemma('C19', 'pvlib.bifacial.loss_models.power_mismatch_deline',
       args=dict(rmad=E(0, 1), fill_factor=P(.5, .9, gt=0), c0=P(0, 1),
                 c1=P(0, 1), c2=P(0, 1)), kinds=('array', 'series', 'scalar'))
def mismatch_coefficients(rmad, fill_factor, c0, c1, c2):
    f = pv.bifacial.power_mismatch_deline
    yield 'documented reference', same(
        f(rmad, fill_factor=fill_factor),
        f(rmad)*fill_factor/.79)
    yield 'coefficients', same(f(rmad, (c0, c1, c2)),
                               c0 + c1*rmad + c2*rmad**2)


# ------------------------------------------------------------------ ants2d
A2_ = 'pvlib.bifacial.ants2d.'
SH1 = 'pvlib.shading.shaded_fraction1d'


def segment_shade(fs, rot, x0, x1):
    """shaded part of the segment [x0, x1] measured from the low edge"""
    a = np.where(rot < 0, 1 - x1, x0)
    b = np.where(rot < 0, 1 - x0, x1)
    return np.clip((fs - a)/(b - a), 0, 1)


@lemma('C19', A2_ + '_shaded_fraction', args=dict(
    rot=TILT, phi=E(-90, 90, nan=False), gcr=GCR, seg=Opt(
        (0, 1), (0, .5), (.5, 1), (.25, .75))), kinds=('array', 'scalar'),
    symstubs={SH1: ufn(SH1, array=True), A2_ + 'shaded_fraction1d': ufn(
        SH1, array=True)})
def ants_shade(rot, phi, gcr, seg):
    x0, x1 = seg
    fs = pv.shading.shaded_fraction1d(
        phi, solar_azimuth=90, axis_azimuth=0, shaded_row_rotation=rot,
        collector_width=1, pitch=1/gcr)
    yield 'segment', same(module('pvlib.bifacial.ants2d')._shaded_fraction(
        rot, phi, gcr, x0, x1), segment_shade(fs, rot, x0, x1), types=False)


SKYS = {}
for n_ in ('haydavies', 'perez', 'perez_driesse'):
    for m_ in (A2_, 'pvlib.irradiance.'):
        SKYS[m_ + n_] = ufn('pvlib.irradiance.' + n_, HD, form='frame')


@lemma('C19', A2_ + '_apply_sky_diffuse_model', args=dict(
    dni=E(0, 1000), dhi=E(0, 600), sky=Opt(
        'isotropic', 'haydavies', 'perez', 'perez-driesse', 'other'),
    zenith=E(0, 95), azimuth=E(0, 360), extra=Opt(None, E(1300, 1420)),
    am=Opt(None, E(1, 20))), kinds=('array', 'series'), symstubs=SKYS,
    nconc=5)
def sky_model(dni, dhi, sky, zenith, azimuth, extra, am):
    def call():
        return module('pvlib.bifacial.ants2d')._apply_sky_diffuse_model(
            dni, dhi, sky, zenith, azimuth, extra, am)
    if sky == 'other' or (extra is None and sky != 'isotropic') or (
            am is None and sky.startswith('perez')):
        yield 'refused', raises(ValueError, call)
        return
    got = call()
    if sky == 'isotropic':
        yield 'dni', same(got[0], dni)
        yield 'dhi', same(got[1], dhi)
        return
    f = getattr(pv.irradiance, sky.replace('-', '_'))
    k = {} if sky == 'haydavies' else dict(airmass=am)
    a = dict(dhi=dhi, dni=dni, dni_extra=extra, solar_zenith=zenith,
             solar_azimuth=azimuth, return_components=True, **k)
    yield 'dni', same(got[0], dni + f(zenith, azimuth, **a)[
        'poa_circumsolar'])
    yield 'dhi', same(got[1], dhi - f(0, 180, **a)['poa_circumsolar'])


PRJ = {}
for m_ in (A2_, 'pvlib.irradiance.'):
    PRJ[m_ + 'aoi_projection'] = ufn('pvlib.irradiance.aoi_projection')


@lemma('C19', A2_ + '_apply_ground_slope', args=dict(
    height=P(1, 4), pitch=P(4, 9), gcr=GCR, rot=E(-90, 90), ghi=E(0, 1000),
    dni=E(0, 1000), dhi=E(0, 500), zenith=E(0, 95), azimuth=E(0, 360),
    axis_tilt=P(-10, 10), axis_azimuth=P(90, 270), slope=P(-10, 10)),
    kinds=('array', 'series'), symstubs=dict(PRJ))
def ground_slope(height, pitch, gcr, rot, ghi, dni, dhi, zenith, azimuth,
                 axis_tilt, axis_azimuth, slope):
    got = module('pvlib.bifacial.ants2d')._apply_ground_slope(
        height, pitch, gcr, rot, ghi, dni, dhi, zenith, azimuth, axis_tilt,
        axis_azimuth, slope)
    ct = cosd(axis_tilt)*cosd(slope)
    az = axis_azimuth + np.rad2deg(np.arctan2(
        sind(slope), cosd(slope)*sind(axis_tilt)))
    tilt = np.rad2deg(np.arccos(ct))
    w = (height*ct, pitch/cosd(slope), gcr*cosd(slope),
         (rot - slope + 180) % 360 - 180,
         dhi + dni*np.maximum(pv.irradiance.aoi_projection(
             tilt, az, zenith, azimuth), 0))
    for n, g, v in zip(('height', 'pitch', 'gcr', 'rotation', 'ghi'), got, w):
        yield n, eq(g, v)


def pairs(n):
    """segments of the unit interval: a count, or the pairs themselves"""
    if isinstance(n, int):
        return [(i/n, (i + 1)/n) for i in range(n)]
    return n


def half(deg):
    return (deg + 180) % 360 - 180


BASE = dict(sky='perez', rows=1, ground=10, axis=180, slope=(0, 0),
            max_rows=None)
SETUPS = [dict(BASE, **v) for v in (
    {}, dict(sky='isotropic'), dict(sky='haydavies'),
    dict(sky='perez-driesse'), dict(rows=3), dict(rows=[(0, .25), (.25, 1)]),
    dict(ground=4), dict(ground=1), dict(ground=[(0, .3), (.3, 1)]),
    dict(axis=90), dict(axis=30), dict(slope=(5, 0)), dict(slope=(0, 4)),
    dict(slope=(-3, 6), axis=200), dict(max_rows=6, ground=1, rows=2),
    dict(max_rows=6, slope=(4, -5), rows=2, ground=3, sky='haydavies'))]


@lemma('C19', A2_ + 'get_irradiance', bounded=True, args=dict(
    rot=E(-80, 80, nan=False), zenith=E(0, 85, nan=False),
    azimuth=E(0, 360, nan=False), gcr=GCR, height=P(1.5, 4), pitch=P(3, 8),
    ghi=E(0, 1000, nan=False), dhi=E(0, 500, nan=False),
    dni=E(0, 1000, nan=False), albedo=Opt(.2, E(.1, .9, nan=False)),
    setup=Opt(*SETUPS)), kinds=('array', 'series', 'scalar'), nconc=4)
def ants(rot, zenith, azimuth, gcr, height, pitch, ghi, dhi, dni, albedo,
         setup):
    sky, rows, ground, axis_azimuth, slope, max_rows = setup.values()
    m = module('pvlib.bifacial.ants2d')
    u = pv.bifacial.utils
    k = {} if sky == 'perez' else dict(model=sky)
    if sky != 'isotropic':
        k['dni_extra'] = dni*0 + 1367.
    axis_tilt, cross = slope
    if rows != 1:
        k['row_segments'] = rows
    if ground != 10:
        k['ground_segments'] = ground
    if axis_tilt:
        k['axis_tilt'] = axis_tilt
    if cross:
        k['cross_axis_slope'] = cross
    if max_rows:
        k['max_rows'] = max_rows
    got, got_ground = m.get_irradiance(
        rot, axis_azimuth, zenith, azimuth, gcr, height, pitch, ghi, dhi,
        dni, albedo, return_ground_components=True, **k)
    only = m.get_irradiance(rot, axis_azimuth, zenith, azimuth, gcr, height,
                            pitch, ghi, dhi, dni, albedo, **k)
    yield 'same without the ground', all(
        np.allclose(only[n], got[n], equal_nan=True) for n in got)
    pandas = isinstance(ghi, pd.Series)
    scalar = np.isscalar(ghi)
    v = [np.atleast_1d(np.asarray(z, float)) for z in (
        rot, zenith, azimuth, ghi, dhi, dni)]
    R, Z, A, G, D_, B = v
    alb = np.atleast_1d(np.asarray(albedo, float))
    ext = np.full_like(B, 1367.)
    am = pv.atmosphere.get_relative_airmass(Z)
    B, D_ = m._apply_sky_diffuse_model(
        B, D_, sky, Z, A, None if sky == 'isotropic' else ext, am)
    r, h, p, g = R, height, pitch, gcr
    if slope != (0, 0):
        h, p, g, r, G = m._apply_ground_slope(
            height, pitch, gcr, R, G, B, D_, Z, A, axis_tilt, axis_azimuth,
            cross)
    n = max_rows or int(np.ceil(h/(p*np.tan(np.radians(4)))))
    phi = pv.shading.projected_solar_zenith_angle(
        Z, A, axis_tilt, axis_azimuth) - cross
    gs = pairs(ground)
    lit = [u._unshaded_ground_fraction(
        r, phi, g, h, p, n, g0=np.array([a]), g1=np.array([b]))[0]
           for a, b in gs]
    direct = [f*(G - D_) for f in lit]
    diffuse = [u.vf_ground_sky_2d_integ(r, g, h, p, n, g0=a, g1=b)*D_
               for a, b in gs]
    rs = pairs(rows)
    for side in ('front', 'back'):
        true = R if side == 'front' else half(R + 180)
        turn = r if side == 'front' else half(r + 180)
        o = pv.tracking.calc_surface_orientation(true, axis_tilt,
                                                 axis_azimuth)
        cos = np.maximum(pv.irradiance.aoi_projection(
            o['surface_tilt'], o['surface_azimuth'], Z, A), 0)
        for i, (a, b) in enumerate(rs):
            if side == 'back':
                a, b = 1 - b, 1 - a
            s = m._shaded_fraction(turn, phi, g, a, b)
            w = {f'shaded_fraction_{side}': s,
                 f'poa_{side}_direct': B*cos*(1 - s),
                 f'poa_{side}_sky_diffuse': D_*u.vf_row_sky_2d_integ(
                     turn, g, a, b),
                 f'poa_{side}_ground_diffuse': sum(
                     alb*(e + f)*np.atleast_3d(u.vf_row_ground_2d_integ(
                         turn, g, h, p, x0=np.array([a]), x1=np.array([b]),
                         g0=np.array([c]), g1=np.array([d]), max_rows=n))
                     .reshape(-1) for e, f, (c, d) in zip(
                         direct, diffuse, gs))}
            w[f'poa_{side}_diffuse'] = w[f'poa_{side}_sky_diffuse'] + w[
                f'poa_{side}_ground_diffuse']
            w[f'poa_{side}'] = w[f'poa_{side}_diffuse'] + w[
                f'poa_{side}_direct']
            for q, e in w.items():
                z = got[q] if rows == 1 else got[q][i]
                yield f'{q} segment {i}', eq(np.atleast_1d(z), e, atol=1e-7)
    if rows == 1 and pandas:
        yield 'a frame', isinstance(got, pd.DataFrame)
        yield 'same times', got.index.equals(ghi.index)
    if rows == 1 and scalar:
        yield 'plain numbers', all(type(z) is float for z in got.values())
    for q, e in (('ground_direct', direct), ('ground_diffuse', diffuse)):
        z = np.asarray(got_ground[q])
        for i, f in enumerate(e):
            yield f'{q} segment {i}', eq(np.atleast_1d(
                z if len(gs) == 1 and ground == 1 else z[i]), f, atol=1e-7)


# ---------------------------------------------------------------- pvfactors
@lemma('C19', 'pvlib.bifacial.pvfactors.pvfactors_timeseries', bounded=True,
       args=dict(seed=P(0, 1e6)), kinds=('scalar',), samples=25)
def pvfactors(seed):
    import warnings
    from pvfactors.run import run_timeseries_engine
    r = np.random.default_rng(int(seed))
    n = int(r.integers(1, 4))
    ts = pd.date_range('2019-06-01 09:00', periods=n, freq='h',
                       tz=[None, 'UTC'][int(r.integers(2))])
    whole = bool(r.random() < .4)

    def of(lo, hi, digits=2):
        v = np.round(r.uniform(lo, hi, n), digits)
        return np.round(v).astype(int) if whole else v
    zen, azi = of(5, 80), of(0, 360)
    dni, dhi = of(10, 1000), of(10, 400)
    axis = float(np.round(r.uniform(0, 360), 1))
    one = bool(r.random() < .4)
    tilt = np.round(r.uniform(1, 60, 1 if one else n), 2)
    side = (axis + 90*r.choice([-1, 1], 1 if one else n)) % 360
    par = dict(gcr=float(r.uniform(.2, .6)), pvrow_height=float(
        r.uniform(2, 4)), pvrow_width=float(r.uniform(1, 2.5)))
    albedo = float(r.uniform(.1, .6))
    rows = int(r.integers(2, 6))
    see = int(r.integers(rows))
    model = dict(zip(('rho_front', 'rho_back'), r.uniform(0, .1, 2)))
    band = float(r.uniform(5, 20))

    def report(pvarray):
        row = pvarray.ts_pvrows[see]
        return {f + s: getattr(row, s).get_param_weighted(f)
                for f in ('qinc', 'qabs') for s in ('front', 'back')}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = run_timeseries_engine(
            report, dict(n_pvrows=rows, axis_azimuth=axis, **par), ts,
            dni*1., dhi*1., zen*1., azi*1., np.broadcast_to(tilt, n)*1.,
            np.broadcast_to(side, n)*1., albedo,
            irradiance_model_params=dict(model, horizon_band_angle=band))
        wrap = [list, np.asarray, lambda v: pd.Series(v, ts)][
            int(r.integers(3))]
        got = pv.bifacial.pvfactors.pvfactors_timeseries(
            wrap(azi), wrap(zen), float(side[0]) if one else wrap(side),
            float(tilt[0]) if one else wrap(tilt), axis, ts, wrap(dni),
            wrap(dhi), **par, albedo=albedo, n_pvrows=rows,
            index_observed_pvrow=see, rho_front_pvrow=model['rho_front'],
            rho_back_pvrow=model['rho_back'], horizon_band_angle=band)
    for k, x in zip(('qincfront', 'qincback', 'qabsfront', 'qabsback'), got):
        yield k, eq(np.asarray(x, float), np.asarray(want[k], float),
                    rtol=1e-9)
        yield k + ' at its times', x.index.equals(ts)
