"""Plane-of-array irradiance: assembly (C02) and sky-diffuse models (C03)."""
from pvc.api import *
from pvc.data import table
import numpy as np
import pandas as pd

Z = E(0, 180)
AZ = E(0, 360)
TILT = E(0, 180)
DHI = E(0, 1200, sp=[0, 100])
GHI = E(0, 1500, sp=[0, 100])
DNI = E(0, 1200, sp=[0])
EXT = E(1300, 1420)
AM = E(0.5, 40)
G = dict(surface_tilt=TILT, surface_azimuth=AZ, solar_zenith=Z,
         solar_azimuth=AZ)
ANY = ('array', 'series', 'scalar', 'mixed')


def cosd(v):
    return np.cos(np.deg2rad(v))


def sind(v):
    return np.sin(np.deg2rad(v))


def proj(surface_tilt, surface_azimuth, solar_zenith, solar_azimuth):
    b, z = np.deg2rad(surface_tilt), np.deg2rad(solar_zenith)
    d = np.deg2rad(solar_azimuth) - np.deg2rad(surface_azimuth)
    return np.clip(np.cos(b)*np.cos(z) + np.sin(b)*np.sin(z)*np.cos(d), -1, 1)


def pack(d, frame):
    if frame:
        return pd.DataFrame(d)
    return d


def isser(*vs):
    return any(isinstance(v, pd.Series) for v in vs)


# ------------------------------------------------------------------ C02
@contract('pvlib.irradiance.get_ground_diffuse', prop='C02',
          args=dict(surface_tilt=TILT, ghi=GHI, albedo=E(0, 1)), kinds=ANY)
def ground(surface_tilt, ghi, albedo):
    return ghi*albedo*(1 - cosd(surface_tilt))/2


SURF = {'urban': 0.18, 'grass': 0.20, 'fresh grass': 0.26, 'soil': 0.17,
        'sand': 0.40, 'snow': 0.65, 'fresh snow': 0.75, 'asphalt': 0.12,
        'concrete': 0.30, 'aluminum': 0.85, 'copper': 0.74,
        'fresh steel': 0.35, 'dirty steel': 0.08, 'sea': 0.06}


@contract('pvlib.irradiance.get_ground_diffuse', prop='C02',
          name='pvlib.irradiance.get_ground_diffuse(surface types)',
          args=dict(surface_tilt=TILT, ghi=GHI, albedo=E(0, 1),
                    surface_type=Opt(*SURF)), kinds=('array',), nconc=5)
def ground_surface(surface_tilt, ghi, albedo, surface_type):
    return ghi*SURF[surface_type]*(1 - cosd(surface_tilt))/2


@lemma('C02', 'pvlib.irradiance.get_ground_diffuse',
       args=dict(surface_tilt=TILT, ghi=E(0, 1500, req=True),
                 albedo=E(0, 1, req=True)), kinds=('array',))
def ground_facts(surface_tilt, ghi, albedo):
    g = pv.irradiance.get_ground_diffuse(surface_tilt, ghi, albedo)
    yield 'never negative', le(0, g)
    yield 'at most reflected irradiance', le(g, ghi*albedo)
    yield 'zero on a horizontal surface', implies(
        both(eq(surface_tilt, 0), neg(either(isnan(ghi), isnan(albedo)))),
        eq(g, 0))


@contract('pvlib.irradiance.poa_components', prop='C02',
          args=dict(aoi=E(0, 180), dni=E(-20, 1200, sp=[0]),
                    poa_sky_diffuse=E(0, 800), poa_ground_diffuse=E(0, 300)),
          kinds=('array', 'series', 'scalar', 'mixed', 'mixedS'))
def poa_components(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
    b = np.maximum(dni*cosd(aoi), 0)
    d = poa_sky_diffuse + poa_ground_diffuse
    return pack({'poa_global': b + d, 'poa_direct': b, 'poa_diffuse': d,
                 'poa_sky_diffuse': poa_sky_diffuse,
                 'poa_ground_diffuse': poa_ground_diffuse}, isser(aoi, dni))


@contract('pvlib.irradiance.poa_components', prop='C02',
          name='pvlib.irradiance.poa_components(with components)',
          args=dict(aoi=E(0, 180), dni=E(-20, 1200, sp=[0]),
                    poa_sky_diffuse=Dct(
                        poa_sky_diffuse=E(0, 800), poa_isotropic=E(0, 500),
                        poa_circumsolar=E(0, 500), poa_horizon=E(-50, 100)),
                    poa_ground_diffuse=E(0, 300)),
          kinds=('array', 'scalar'))
def poa_components_d(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
    s = poa_sky_diffuse
    b = np.maximum(dni*cosd(aoi), 0)
    d = s['poa_sky_diffuse'] + poa_ground_diffuse
    return {'poa_global': b + d, 'poa_direct': b, 'poa_diffuse': d,
            'poa_ground_diffuse': poa_ground_diffuse,
            'poa_sky_diffuse': s['poa_sky_diffuse'],
            'poa_isotropic': s['poa_isotropic'],
            'poa_circumsolar': s['poa_circumsolar'],
            'poa_horizon': s['poa_horizon']}


@contract('pvlib.irradiance.poa_components', prop='C02',
          name='pvlib.irradiance.poa_components(frame)',
          args=dict(aoi=E(0, 180), dni=E(-20, 1200, sp=[0]),
                    poa_sky_diffuse=Dct(
                        'frame', poa_sky_diffuse=E(0, 800),
                        poa_isotropic=E(0, 500),
                        poa_circumsolar=E(0, 500)),
                    poa_ground_diffuse=E(0, 300)),
          kinds=('series',))
def poa_components_f(aoi, dni, poa_sky_diffuse, poa_ground_diffuse):
    s = poa_sky_diffuse
    b = np.maximum(dni*cosd(aoi), 0)
    d = s['poa_sky_diffuse'] + poa_ground_diffuse
    return pd.DataFrame({
        'poa_global': b + d, 'poa_direct': b, 'poa_diffuse': d,
        'poa_ground_diffuse': poa_ground_diffuse,
        'poa_sky_diffuse': s['poa_sky_diffuse'],
        'poa_isotropic': s['poa_isotropic'],
        'poa_circumsolar': s['poa_circumsolar']})


MODELS = ('isotropic', 'klucher', 'haydavies', 'reindl', 'king', 'perez',
          'perez-driesse')


def sky(model, k, am, model_perez, rc):
    """the sky-diffuse model selected by name, called with its arguments"""
    I = pv.irradiance
    t, a = k['surface_tilt'], k['surface_azimuth']
    z, za = k['solar_zenith'], k['solar_azimuth']
    dhi, dni, ghi, ext = k['dhi'], k['dni'], k['ghi'], k['dni_extra']
    if model == 'isotropic':
        return I.isotropic(t, dhi, return_components=rc)
    if model == 'klucher':
        return I.klucher(t, a, dhi, ghi, z, za)
    if model == 'haydavies':
        return I.haydavies(t, a, dhi, dni, ext, z, za, return_components=rc)
    if model == 'reindl':
        return I.reindl(t, a, dhi, dni, ghi, ext, z, za, return_components=rc)
    if model == 'king':
        return I.king(t, dhi, ghi, z)
    if model == 'perez':
        if am is None:
            am = pv.atmosphere.get_relative_airmass(z)
        return I.perez(t, a, dhi, dni, ext, z, za, am, model=model_perez,
                       return_components=rc)
    if model == 'perez-driesse':
        return I.perez_driesse(t, a, dhi, dni, ext, z, za, am,
                               return_components=rc)
    raise ValueError(model)


TOT = dict(G, dni=DNI, ghi=GHI, dhi=DHI, dni_extra=EXT)


@contract('pvlib.irradiance.get_sky_diffuse', prop='C02',
          args=dict(TOT, airmass=Opt(None, AM),
                    model=Opt(*MODELS, 'HayDavies', 'nonsense'),
                    model_perez=Opt('allsitescomposite1990', 'phoenix1988')),
          kinds=('array', 'series'), nconc=10)
def get_sky_diffuse(model, airmass, model_perez, **k):
    return sky(model.lower(), k, airmass, model_perez, False)


@contract('pvlib.irradiance.get_sky_diffuse', prop='C02',
          name='pvlib.irradiance.get_sky_diffuse(components)',
          args=dict(TOT, airmass=AM, model=Opt(*MODELS),
                    return_components=True),
          kinds=('array', 'series'), nconc=10)
def get_sky_diffuse_c(model, airmass, return_components, **k):
    if model in ('klucher', 'king'):
        raise ValueError
    return sky(model, k, airmass, 'allsitescomposite1990', True)


@contract('pvlib.irradiance.get_sky_diffuse', prop='C02',
          name='pvlib.irradiance.get_sky_diffuse(no dni_extra)',
          args=dict(dict(TOT, dni_extra=None), model=Opt(*MODELS)),
          kinds=('array',), nconc=10)
def get_sky_diffuse_n(model, **k):
    if model in ('haydavies', 'reindl', 'perez', 'perez-driesse'):
        raise ValueError
    return sky(model, k, None, 'allsitescomposite1990', False)


def _total(model, airmass, albedo, diffuse_components, model_perez,
           surface_type=None, **k):
    s = sky(model, k, airmass, model_perez, diffuse_components)
    if surface_type is not None:
        albedo = SURF[surface_type]
    comps = {}
    if diffuse_components:
        comps = {c: s[c] for c in s.keys() if c != 'poa_sky_diffuse'}
        s = s['poa_sky_diffuse']
    b = pv.irradiance.beam_component(
        k['surface_tilt'], k['surface_azimuth'], k['solar_zenith'],
        k['solar_azimuth'], k['dni'])
    g = k['ghi']*albedo*(1 - cosd(k['surface_tilt']))/2
    return pack({'poa_global': b + (s + g), 'poa_direct': b,
                 'poa_diffuse': s + g, 'poa_sky_diffuse': s,
                 'poa_ground_diffuse': g, **comps}, isser(b))


@contract('pvlib.irradiance.get_total_irradiance', prop='C02',
          args=dict(TOT, airmass=AM, albedo=E(0, 1), model=Opt(*MODELS),
                    surface_type=Opt(None, 'snow'), model_perez='france1988',
                    diffuse_components=False),
          kinds=('array', 'series', 'scalar'), nconc=10)
def total(**k):
    return _total(**k)


@contract('pvlib.irradiance.get_total_irradiance', prop='C02',
          name='pvlib.irradiance.get_total_irradiance(components)',
          args=dict(TOT, airmass=Opt(None, AM), albedo=E(0, 1),
                    model=Opt('isotropic', 'haydavies', 'reindl', 'perez',
                              'perez-driesse'),
                    model_perez='allsitescomposite1990',
                    diffuse_components=True),
          kinds=('array', 'series'), nconc=10)
def total_components(**k):
    return _total(**k)


@lemma('C02', 'pvlib.irradiance.get_total_irradiance',
       args=dict(TOT, airmass=AM, albedo=E(0, 1), model=Opt(*MODELS)),
       kinds=('array',), nconc=10)
def closure(**k):
    r = pv.irradiance.get_total_irradiance(**k)
    yield 'global is direct plus diffuse', eq(
        r['poa_global'], r['poa_direct'] + r['poa_diffuse'])
    yield 'diffuse is sky plus ground', eq(
        r['poa_diffuse'], r['poa_sky_diffuse'] + r['poa_ground_diffuse'])
    yield 'direct never negative', le(0, r['poa_direct'])
    yield 'no direct light from behind', implies(
        both(pv.irradiance.aoi(
            k['surface_tilt'], k['surface_azimuth'], k['solar_zenith'],
            k['solar_azimuth']) > 90, 0 <= k['dni']),
        eq(r['poa_direct'], 0))


# ------------------------------------------------------------------ C03
@contract('pvlib.irradiance.isotropic', prop='C03',
          args=dict(surface_tilt=TILT, dhi=DHI,
                    return_components=Opt(False, True)), kinds=ANY)
def isotropic(surface_tilt, dhi, return_components):
    d = dhi*(1 + cosd(surface_tilt))/2
    if return_components:
        return pack({'poa_sky_diffuse': d, 'poa_isotropic': d}, isser(d))
    return d


@contract('pvlib.irradiance.klucher', prop='C03',
          args=dict(G, dhi=DHI, ghi=GHI), kinds=('array', 'series'))
def klucher(surface_tilt, surface_azimuth, dhi, ghi, solar_zenith,
            solar_azimuth):
    p = np.maximum(proj(surface_tilt, surface_azimuth, solar_zenith,
                        solar_azimuth), 0)
    with np.errstate(all='ignore'):
        F = 1 - (dhi/ghi)**2
    F = F.fillna(0) if isser(F) else np.where(np.isnan(F), 0, F)
    return dhi*((1 + cosd(surface_tilt))/2) * \
        (1 + F*sind(surface_tilt/2)**3) * (1 + F*p**2*sind(solar_zenith)**3)


def rb(k):
    p = np.maximum(proj(k['surface_tilt'], k['surface_azimuth'],
                        k['solar_zenith'], k['solar_azimuth']), 0)
    return p/np.maximum(cosd(k['solar_zenith']), 0.01745)


@contract('pvlib.irradiance.haydavies', prop='C03',
          args=dict(G, dhi=DHI, dni=DNI, dni_extra=EXT,
                    return_components=Opt(False, True)), kinds=ANY)
def haydavies(dhi, dni, dni_extra, return_components, **k):
    ai = dni/dni_extra
    iso = np.maximum(dhi*(1 - ai)*(1 + cosd(k['surface_tilt']))/2, 0)
    cs = np.maximum(dhi*ai*rb(k), 0)
    if return_components:
        return pack({'poa_sky_diffuse': iso + cs, 'poa_isotropic': iso,
                     'poa_circumsolar': cs}, isser(iso, cs))
    return iso + cs


@contract('pvlib.irradiance.haydavies', prop='C03',
          name='pvlib.irradiance.haydavies(projection ratio)',
          args=dict(surface_tilt=TILT, surface_azimuth=AZ, dhi=DHI, dni=DNI,
                    dni_extra=EXT, projection_ratio=E(0, 40)),
          kinds=('array', 'series'))
def haydavies_pr(surface_tilt, surface_azimuth, dhi, dni, dni_extra,
                 projection_ratio):
    ai = dni/dni_extra
    iso = np.maximum(dhi*(1 - ai)*(1 + cosd(surface_tilt))/2, 0)
    return iso + np.maximum(dhi*ai*projection_ratio, 0)


@contract('pvlib.irradiance.reindl', prop='C03',
          args=dict(G, dhi=DHI, dni=DNI, ghi=GHI, dni_extra=EXT,
                    return_components=Opt(False, True)),
          kinds=('array', 'series', 'scalar'))
def reindl(dhi, dni, ghi, dni_extra, return_components, **k):
    t = k['surface_tilt']
    ai = dni/dni_extra
    hb = np.maximum(dni*cosd(k['solar_zenith']), 0)
    with np.errstate(all='ignore'):
        r = np.where(ghi == 0, 0, np.divide(hb, ghi))
    iso = dhi*((1 - ai)*(1 + cosd(t))/2)
    cs = dhi*ai*rb(k)
    hz = iso*np.sqrt(r)*sind(t/2)**3
    tot = iso + cs + hz
    if return_components:
        return pack({'poa_sky_diffuse': tot, 'poa_isotropic': iso,
                     'poa_circumsolar': cs, 'poa_horizon': hz}, isser(tot))
    return tot


@contract('pvlib.irradiance.king', prop='C03',
          args=dict(surface_tilt=TILT, dhi=DHI, ghi=GHI, solar_zenith=Z),
          kinds=ANY)
def king(surface_tilt, dhi, ghi, solar_zenith):
    c = cosd(surface_tilt)
    return np.maximum(dhi*(1 + c)/2 + ghi*(0.012*solar_zenith - 0.04)*(1 - c)/2,
                      0)


PEREZ = table('perez')


GP = dict(surface_tilt=E(0, 180, nan=False, req=True),
          surface_azimuth=E(0, 360, nan=False),
          solar_zenith=E(0, 180, nan=False, req=True),
          solar_azimuth=E(0, 360, nan=False))
FP = dict(dhi=E(0, 1200, gt=0, nan=False, req=True),
          dni=E(0, 1200, nan=False, req=True),
          dni_extra=E(1300, 1420, nan=False, req=True))


@contract('pvlib.irradiance.perez', prop='C03',
          args=dict(GP, **FP, airmass=E(0.9, 40, req=True),
                    model=Opt(*PEREZ), return_components=Opt(False, True)),
          kinds=('array', 'series'), nconc=12)
def perez(dhi, dni, dni_extra, airmass, model, return_components, **k):
    return _perez(dhi, dni, dni_extra, airmass, model, return_components, k)


def _perez(dhi, dni, dni_extra, airmass, model, return_components, k):
    t = k['surface_tilt']
    z = np.deg2rad(k['solar_zenith'])
    delta = dhi*airmass/dni_extra
    k3 = 1.041*z**3
    with np.errstate(all='ignore'):
        eps = ((dhi + dni)/dhi + k3)/(1 + k3)
    lims = (1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)
    F = []
    for c in PEREZ[model]:
        f = [np.where(np.isnan(eps), np.nan, c[0][j]) for j in range(3)]
        for row, lim in zip(c[1:], lims):
            f = [np.where(eps >= lim, row[j], f[j]) for j in range(3)]
        F.append(f[0] + f[1]*delta + f[2]*z)
    F1, F2 = np.maximum(F[0], 0), F[1]
    a = np.maximum(proj(t, k['surface_azimuth'], k['solar_zenith'],
                        k['solar_azimuth']), 0)
    b = np.maximum(np.cos(z), cosd(85))
    iso = dhi*(1 - F1)*(1 + cosd(t))/2
    cs = dhi*F1*a/b
    hz = dhi*F2*sind(t)
    tot = np.where(np.isnan(airmass), 0, np.maximum(iso + cs + hz, 0))
    if isser(iso):
        tot = pd.Series(tot, index=iso.index)
    if return_components:
        m = tot == 0
        out = {'poa_sky_diffuse': np.where(m, 0, tot),
               'poa_isotropic': np.where(m, 0, iso),
               'poa_circumsolar': np.where(m, 0, cs),
               'poa_horizon': np.where(m, 0, hz)}
        if isser(iso):
            out = pd.DataFrame(out, index=iso.index)
        return out
    return tot


@contract('pvlib.irradiance.perez_driesse', prop='C03',
          args=dict(GP, **FP, airmass=Opt(None, E(0.9, 40, req=True)),
                    return_components=Opt(False, True)),
          kinds=('array', 'series'), nconc=25)
def perez_driesse(dhi, dni, dni_extra, airmass, return_components, **k):
    t, zd = k['surface_tilt'], k['solar_zenith']
    z = np.deg2rad(zd)
    am = airmass
    if am is None:
        am = pv.atmosphere.get_relative_airmass(zd, 'kastenyoung1989')
    amx = pv.atmosphere.get_relative_airmass(90, 'kastenyoung1989')
    am = np.where(zd >= 90, amx, am)
    delta = dhi*am/dni_extra
    with np.errstate(all='ignore'):
        zeta = np.where(dhi == 0, 0, np.asarray(dni/(dhi + dni)))
    zeta = zeta/(1 - 1.041*z**3*(zeta - 1))
    f = pv.irradiance._f
    F1 = f(1, 1, zeta) + f(1, 2, zeta)*delta + f(1, 3, zeta)*z
    F2 = f(2, 1, zeta) + f(2, 2, zeta)*delta + f(2, 3, zeta)*z
    F1 = np.clip(F1, 0, 0.9)
    a = np.maximum(proj(t, k['surface_azimuth'], zd, k['solar_azimuth']), 0)
    b = np.maximum(np.cos(z), cosd(85))
    iso = dhi*(1 - F1)*(1 + cosd(t))/2
    cs = dhi*F1*a/b
    hz = dhi*F2*sind(t)
    tot = np.maximum(iso + cs + hz, 0)
    if return_components:
        return pack({'poa_sky_diffuse': tot, 'poa_isotropic': iso,
                     'poa_circumsolar': cs, 'poa_horizon': hz}, isser(tot))
    return tot


R = dict(surface_tilt=E(0, 180, req=True, nan=False), surface_azimuth=AZ,
         solar_zenith=Z, solar_azimuth=AZ)
POS = dict(dhi=E(0, 1200, req=True), dni=E(0, 1200, req=True),
           dni_extra=E(1300, 1420, req=True))


@lemma('C03', 'pvlib.irradiance.haydavies', args=dict(R, **POS),
       kinds=('array',))
def haydavies_sum(**k):
    r = pv.irradiance.haydavies(return_components=True, **k)
    yield 'components sum to the total', eq(
        r['poa_isotropic'] + r['poa_circumsolar'], r['poa_sky_diffuse'])
    for n in r.keys():
        yield n + ' never negative', le(0, r[n])
    yield 'same total without components', eq(
        r['poa_sky_diffuse'], pv.irradiance.haydavies(**k))


@lemma('C03', 'pvlib.irradiance.reindl',
       args=dict(R, **dict(POS, ghi=E(0, 1500, req=True))), kinds=('array',))
def reindl_sum(**k):
    r = pv.irradiance.reindl(return_components=True, **k)
    yield 'components sum to the total', eq(
        r['poa_isotropic'] + r['poa_circumsolar'] + r['poa_horizon'],
        r['poa_sky_diffuse'])
    yield 'same total without components', eq(
        r['poa_sky_diffuse'], pv.irradiance.reindl(**k))


@lemma('C03', 'pvlib.irradiance.perez', args=dict(R, **POS, airmass=AM),
       kinds=('array',))
def perez_sum(**k):
    r = pv.irradiance.perez(return_components=True, **k)
    yield 'components sum to the total', eq(
        r['poa_isotropic'] + r['poa_circumsolar'] + r['poa_horizon'],
        r['poa_sky_diffuse'])
    yield 'total never negative', le(0, r['poa_sky_diffuse'])
    yield 'same total without components', eq(
        r['poa_sky_diffuse'], pv.irradiance.perez(**k))
    yield 'missing airmass gives no sky diffuse', implies(
        isnan(k['airmass']), eq(r['poa_sky_diffuse'], 0))


@lemma('C03', 'pvlib.irradiance.perez_driesse',
       args=dict(R, **POS, airmass=AM), kinds=('array',))
def perez_driesse_sum(**k):
    r = pv.irradiance.perez_driesse(return_components=True, **k)
    yield 'components sum to the total when it is positive', implies(
        lt(0, r['poa_sky_diffuse']), eq(
            r['poa_isotropic'] + r['poa_circumsolar'] + r['poa_horizon'],
            r['poa_sky_diffuse']))
    yield 'total never negative', le(0, r['poa_sky_diffuse'])
    yield 'same total without components', eq(
        r['poa_sky_diffuse'], pv.irradiance.perez_driesse(**k))


@lemma('C03', 'pvlib.irradiance.get_sky_diffuse',
       args=dict(surface_azimuth=AZ, solar_zenith=E(0, 85, req=True),
                 solar_azimuth=AZ, dhi=E(0, 1200, req=True, gt=0),
                 dni=E(0, 1000, req=True), ghi=E(0, 1500, gt=0, req=True),
                 dni_extra=E(1300, 1420, req=True),
                 airmass=E(1, 40, nan=False),
                 model=Opt('isotropic', 'klucher', 'haydavies', 'reindl',
                           'king')), kinds=('array',))
def horizontal(dhi, **k):
    s = pv.irradiance.get_sky_diffuse(surface_tilt=0.0*dhi, dhi=dhi, **k)
    ok = neg(isnan(s))
    if k['model'] == 'klucher':
        # circumsolar term of Klucher does not vanish on the horizontal
        yield 'at least dhi scaled by its own circumsolar factor', implies(
            both(ok, le(dhi, k['ghi'])), le(dhi, s))
    else:
        yield 'a horizontal surface receives the horizontal diffuse', \
            implies(ok, eq(s, dhi, rtol=1e-5))


@lemma('C03', 'pvlib.irradiance.isotropic',
       args=dict(surface_tilt=E(0, 180, req=True),
                 dhi=E(0, 1200, req=True)), kinds=('array',))
def isotropic_range(surface_tilt, dhi):
    s = pv.irradiance.isotropic(surface_tilt, dhi)
    yield 'between nothing and dhi', both(le(0, s), le(s, dhi))


@contract('pvlib.irradiance.diffuse_par_spitters', prop='C03',
          args=dict(daily_solar_zenith=E(0, 90),
                    global_diffuse_fraction=E(0, 1)), kinds=ANY)
def spitters(daily_solar_zenith, global_diffuse_fraction):
    f = global_diffuse_fraction
    c, s = cosd(daily_solar_zenith), sind(daily_solar_zenith)
    return (1 + 0.3*(1 - f**2))*f/(1 + (1 - f**2)*c**2*s**3)
